// C03: the facets in one wall of a cell are cut along their edges and peeled
// off one after another.
#include "boolean.h"
#include "poly.h"
#include "walnut/plane_partitioner.h"

using namespace gen;
using walnut::BSPPolygon;
using walnut::PlanePartitioner;
using walnut::SplitSide;

namespace {

struct In {
  BSPContentId id;
  Loop l;
  Pl plane;
  int change;
};
struct Out {
  BSPContentId id;
  Loop l;
};

Pl NegPl(const Pl& p) { Pl r; r.n = -p.n; r.d = -p.d; return r; }

// -1 outside, 0 on the boundary, 1 inside; p in the plane of l.
int In2(const Loop& l, const P3& p, const P3& n) {
  bool on = false;
  for (size_t i = 0; i < l.size(); ++i) {
    Q t = Dot(Cross(l[(i + 1) % l.size()] - l[i], p - l[i]), n);
    if (t < 0) return -1;
    if (t == 0) on = true;
  }
  return on ? 0 : 1;
}

bool OnLine(const Pl& p, const P3& a, const P3& b) { return p.Side(a) == 0 && p.Side(b) == 0; }

template <class Poly>
struct Watch : walnut::BSPVisitor<Poly> {
  DynFilter f;
  const HalfSpace3* wall = nullptr;
  bool wall_pos = false;
  int drop = 0;
  const std::vector<In>* in = nullptr;
  std::vector<const HalfSpace3*> outer;   // planes cut before
  std::vector<const HalfSpace3*> stack;
  std::vector<Pl> stack_pl;
  bool in_leaf = false;
  size_t entered = 0, leaves = 0;
  std::vector<Out> out;

  FilterResult IsInside(const std::vector<BSPContentInfo>& i) override { return f(i); }
  void EnterInteriorNode(bool part, const HalfSpace3& h) override {
    PBT_CHECK(part, "interior node not from the partitioner");
    Pl p = ToPl(h);
    PBT_CHECK(!p.n.IsZero(), "split plane " << p << " is not a plane");
    PBT_CHECK(p.n[drop] == 0, "split plane " << p << " is not parallel to dimension " << drop);
    bool found = false;
    for (const In& i : *in) for (size_t k = 0; k < i.l.size(); ++k) found = found || OnLine(p, i.l[k], i.l[(k + 1) % i.l.size()]);
    PBT_CHECK(found, "split plane " << p << " is not along an edge of a facet");
    for (const Pl& o : stack_pl) PBT_CHECK(!SameHalfSpace(o, p) && !SameHalfSpace(NegPl(o), p), "split again by " << p);
    stack.push_back(&h);
    stack_pl.push_back(p);
    in_leaf = false;
    ++entered;
  }
  void LeaveInteriorNode(bool part, const HalfSpace3& h) override {
    PBT_CHECK(part && !stack.empty() && stack.back() == &h, "left a node that is not the last entered");
    stack.pop_back();
    stack_pl.pop_back();
    in_leaf = false;
  }
  void EnterLeafNode() override { in_leaf = true; ++leaves; }

  void CheckSide(const SplitSide& s, const Loop& l, const char* what) {
    PBT_CHECK(s.split != nullptr, what << ": no plane recorded");
    if (s.split == wall) {
      PBT_CHECK(s.pos_side == wall_pos, what << ": side of the wall changed");
      return;
    }
    bool known = std::find(stack.begin(), stack.end(), s.split) != stack.end() ||
                 std::find(outer.begin(), outer.end(), s.split) != outer.end();
    PBT_CHECK(known, what << ": recorded plane is neither the wall nor a plane being split by");
    Pl p = ToPl(*s.split);
    for (const P3& q : l) PBT_CHECK(s.pos_side ? p.Side(q) >= 0 : p.Side(q) <= 0, what << ": facet " << l << " is not on the recorded side of " << p);
  }
  void Accept(Poly&& p) override {
    PBT_CHECK(in_leaf, "facet passed on outside of a leaf");
    CheckPoly(p, false, "piece");
    Loop l = FromPoly(p);
    for (size_t i = 0; i < stack.size(); ++i) {
      bool neg = false, pos = false;
      for (const P3& q : l) { int t = stack_pl[i].Side(q); neg |= t < 0; pos |= t > 0; }
      PBT_CHECK(neg != pos, "piece " << l << " is not on one side of " << stack_pl[i]);
    }
    PBT_CHECK(p.on_node_plane.split == wall && p.on_node_plane.pos_side == wall_pos, "piece is not on the wall any more");
    for (size_t i = 0; i < l.size(); ++i) {
      const auto& e = p.bsp_edge_info(i);
      const P3& a = l[i];
      const P3& b = l[(i + 1) % l.size()];
      CheckSide(e.edge_first_coincident, l, "first plane of an edge");
      CheckSide(e.edge_last_coincident, l, "last plane of an edge");
      CheckSide(e.vertex_last_coincident, l, "last plane of a vertex");
      PBT_CHECK(OnLine(ToPl(*e.edge_first_coincident.split), a, b), "edge " << a << b << " is not on its first plane");
      PBT_CHECK(OnLine(ToPl(*e.edge_last_coincident.split), a, b), "edge " << a << b << " is not on its last plane");
      PBT_CHECK(e.edge_first_coincident.split != e.edge_last_coincident.split, "edge " << a << b << " of a piece is not on a split");
      PBT_CHECK(ToPl(*e.vertex_last_coincident.split).Side(a) == 0, "vertex " << a << " is not on its last plane");
      if (e.edge_created_by.split) {
        CheckSide(e.edge_created_by, l, "plane that made an edge");
        PBT_CHECK(OnLine(ToPl(*e.edge_created_by.split), a, b), "edge " << a << b << " is not on the plane that made it");
      }
    }
    out.push_back(Out{p.id, l});
  }
};

template <class Poly, class InPoly>
void RunOne(pbt::Src& s, pbt::Ctx& c, PlanePartitioner<Poly>& part, bool* interesting) {
  Affine f = GenAffine(s);
  int axis = s.draw(3);
  auto place = [&](const P3& a) { return f(P3(a[(3 - axis) % 3], a[(4 - axis) % 3], a[(5 - axis) % 3])); };
  P3 base_n;
  {
    Loop t{place(IP(0, 0, 0)), place(IP(1, 0, 0)), place(IP(0, 1, 0))};
    base_n = AreaVec(t);
  }
  std::vector<int> dims;
  for (int i = 0; i < 3; ++i) if (base_n[i] != 0) dims.push_back(i);
  int drop = dims[s.draw(dims.size())];
  bool pos_normal = s.flip();
  RepStyle st = GenRepStyle(s);
  size_t ids = 1 + s.draw(3);
  bool redundant = s.chance(1, 4);
  // Facets.
  std::vector<Loop> flat;
  std::vector<In> in;
  std::vector<size_t> id_of;
  const size_t most = s.chance(1, 8) ? 16 : 7;
  for (size_t k = 0; s.more(k, 0, most); ++k) {
    Loop l;
    switch (flat.empty() ? s.draw(2) : s.draw(5)) {
      case 0: {
        long x = s.range(-3, 3), y = s.range(-3, 3), w = 1 + s.draw(4), h = 1 + s.draw(4);
        l = {IP(x, y, 0), IP(x + w, y, 0), IP(x + w, y + h, 0), IP(x, y + h, 0)};
        break;
      }
      case 1:
        l = GenOutline(s, 7, redundant);
        for (P3& a : l) a = a + IP(0, 0, 0);
        break;
      case 2: l = s.pick(flat); break;
      case 3: {
        l = s.pick(flat);
        P3 d = IP(s.range(-2, 2), s.range(-2, 2), 0);
        for (P3& a : l) a = a + d;
        break;
      }
      default: {
        // The part of one facet on one side of an edge of another.
        const Loop& a = s.pick(flat);
        const Loop& b = s.pick(flat);
        size_t i = s.draw(b.size());
        Pl h;
        h.n = Cross(b[(i + 1) % b.size()] - b[i], IP(0, 0, s.flip() ? 1 : -1));
        h.d = Dot(h.n, b[i]);
        Loop cl = ClipConvex(a, h);
        for (const P3& q : cl) if (l.empty() || l.back() != q) l.push_back(q);
        while (l.size() > 1 && l.front() == l.back()) l.pop_back();
        if (l.size() < 3 || AreaVec(l).IsZero()) l = a;
        break;
      }
    }
    // GenOutline always turns the same way.
    if (Dot(AreaVec(l), IP(0, 0, 1)) < 0) std::reverse(l.begin(), l.end());
    flat.push_back(l);
  }
  HalfSpace3 wall = Plane(base_n, Dot(base_n, place(IP(0, 0, 0))), GenScale(s));
  bool wall_pos = s.flip();
  std::vector<InPoly> polys;
  for (const Loop& l : flat) {
    Loop g;
    for (const P3& a : l) g.push_back(place(a));
    if (s.chance(1, 3)) std::reverse(g.begin(), g.end());
    size_t id = s.draw(ids);
    using Parent = typename InPoly::UnspecializedParent;
    InPoly p(id, &wall, wall_pos, MakePoly<Parent>(s, g, st));
    p.SetBoundaryAngles(SplitSide{&wall, wall_pos}, 0, p.vertex_count() + 1);
    polys.push_back(std::move(p));
  }
  // Planes of the cell that were there before.
  std::deque<HalfSpace3> before;
  if (!flat.empty()) {
    for (size_t k = 0; s.more(k, 0, 3); ++k) {
      const Loop& l = s.pick(flat);
      size_t i = s.draw(l.size());
      P3 a = l[i], b;
      switch (s.draw(3)) {
        case 0: b = l[(i + 1) % l.size()]; break;
        case 1: b = l[(i + l.size() / 2) % l.size()]; break;
        default: b = a + IP(s.range(-3, 3), s.range(-3, 3), 0); break;
      }
      if (a == b) continue;
      P3 up = s.flip() ? IP(0, 0, 1) : IP(s.range(-2, 2), s.range(-2, 2), 1);
      Loop t{place(a), place(b), place(a + up)};
      HalfSpace3 h = PlaneOf(t, GenScale(s, false));
      if (s.flip()) h = -h;
      Pl hp = ToPl(h);
      bool dup = false;
      for (const HalfSpace3& o : before) { Pl q = ToPl(o); dup = dup || SameHalfSpace(q, hp) || SameHalfSpace(NegPl(q), hp); }
      if (dup) continue;
      before.push_back(h);
      const HalfSpace3* cut = &before.back();
      std::vector<InPoly> kept;
      for (InPoly& p : polys) {
        walnut::ConvexPolygonSplitInfo info = p.GetSplitInfo(*cut);
        if (!info.ShouldEmitNegativeChild()) continue;
        if (info.ShouldEmitPositiveChild()) {
          auto ch = p.CreateSplitChildren(std::move(info));
          InPoly::SetChildBoundaryAngles(ch, *cut);
          kept.push_back(std::move(ch.first));
        } else {
          p.SetBoundaryAngles(SplitSide{cut, false}, info.neg_range());
          kept.push_back(std::move(p));
        }
      }
      polys = std::move(kept);
    }
  }
  std::vector<BSPContentInfo> info(ids + s.draw(2));
  for (const InPoly& p : polys) {
    In x;
    x.id = p.id;
    x.l = FromPoly(p);
    x.plane = ToPl(p.plane());
    x.change = (x.plane.n[drop] > 0) == pos_normal ? 1 : -1;
    in.push_back(x);
    info[p.id].has_border_polygons = 1;
  }
  for (auto& i : info) i.pwn = s.chance(1, 6) ? s.range(-3, 3) : s.range(-1, 1);
  Expr e = GenExpr(s, ids, s.flip() ? 0 : 2, s.flip(), s.chance(1, 4));
  c << "wall " << ToPl(wall) << ", dimension " << drop << ", pos_normal " << pos_normal << ", filter " << e << ", inside";
  for (auto& i : info) c << " " << i.pwn;
  c << ", planes before:";
  for (const HalfSpace3& h : before) c << " " << ToPl(h);
  c << "\n";
  for (const In& i : in) c << "  id " << i.id << " (" << i.change << ") " << i.l << "\n";

  Watch<Poly> v;
  v.f = e.Filter();
  v.wall = &wall;
  v.wall_pos = wall_pos;
  v.drop = drop;
  v.in = &in;
  for (const HalfSpace3& h : before) v.outer.push_back(&h);
  const std::vector<InPoly> input = polys;
  part.Run(input.begin(), input.end(), drop, pos_normal, info, v);
  PBT_CHECK(v.stack.empty(), "nodes entered and not left");
  for (size_t i = 0; i < polys.size(); ++i) PBT_CHECK(input[i] == polys[i] && input[i].id == polys[i].id, "input changed");

  // Every piece is part of facets of its id that face the same way.
  for (const Out& o : v.out) {
    bool found = false;
    for (const In& i : in) {
      if (i.id != o.id || !SameDir(i.plane.n, AreaVec(o.l))) continue;
      bool all = true;
      P3 n = AreaVec(i.l);
      for (const P3& q : o.l) all = all && i.plane.Side(q) == 0 && In2(i.l, q, n) >= 0;
      found = found || all;
    }
    PBT_CHECK(found, "piece " << o.l << " of id " << o.id << " is not part of a facet");
  }
  // Points of the plane.
  std::vector<P3> at;
  for (size_t k = 0; k < in.size(); ++k) {
    const Loop& l = in[k].l;
    at.push_back(InnerPoint(s, l));
    for (size_t i = 0; i < l.size(); ++i) {
      const P3& a = l[i];
      const P3& b = l[(i + 1) % l.size()];
      Q t(static_cast<long>(1 + s.draw(31)), 32L);
      P3 m = a + (b - a) * t;
      P3 inner = InnerPoint(s, l);
      Q eps = Frac(Z(1), Pow2(10 + s.draw(20)));
      at.push_back(m + (inner - m) * eps);
      at.push_back(m - (inner - m) * eps);
    }
  }
  for (const Out& o : v.out) at.push_back(InnerPoint(s, o.l));
  size_t used = 0, two = 0;
  for (const P3& q : at) {
    bool on = false;
    for (const HalfSpace3& h : before) on = on || ToPl(h).Side(q) >= 0;
    if (on) continue;
    std::vector<int64_t> w(info.size());
    for (size_t i = 0; i < w.size(); ++i) w[i] = info[i].pwn;
    auto wind = [&](BSPContentId id) { return id < w.size() ? w[id] : int64_t(0); };
    bool inner = e.Eval(wind);
    std::map<std::pair<size_t, int>, int> cover, got;
    size_t covering = 0;
    for (const In& i : in) {
      int t = In2(i.l, q, AreaVec(i.l));
      if (t == 0) { on = true; break; }
      if (t < 0) continue;
      w[i.id] += i.change;
      ++covering;
      ++cover[{i.id, i.change}];
    }
    if (on) continue;
    bool outer = e.Eval(wind);
    int sum = 0;
    size_t n = 0;
    for (const Out& o : v.out) {
      P3 a = AreaVec(o.l);
      int t = In2(o.l, q, a);
      if (t == 0) { on = true; break; }
      if (t < 0) continue;
      int ch = (a[drop] > 0) == pos_normal ? 1 : -1;
      ++n;
      sum += ch;
      ++got[{o.id, ch}];
    }
    if (on) continue;
    ++used;
    PBT_CHECK(n % 2 == size_t(inner != outer), n << " pieces at " << q << ", inside is " << (inner ? "in" : "out") << ", outside is " << (outer ? "in" : "out"));
    for (const auto& g : got) PBT_CHECK(g.second <= cover[g.first], g.second << " pieces of id " << g.first.first << " at " << q << ", covered " << cover[g.first] << " times");
    if (e.Monotone()) PBT_CHECK(sum == int(outer) - int(inner), "pieces at " << q << " change the winding by " << sum);
    if (covering >= 2) ++two;
  }
  c.count(used);
  if (v.entered >= 3 && two >= 3 && !v.out.empty()) *interesting = true;
  if (v.out.empty()) c.label("nothing passed on");
  if (!before.empty()) c.label("cut by planes of the cell first");
  if (v.entered == 0 && !in.empty()) c.label("no split needed");
}

template <class Poly, class InPoly>
void RunAll(pbt::Src& s, pbt::Ctx& c) {
  PlanePartitioner<Poly> part;
  bool interesting = false;
  for (size_t k = 0; s.more(k, 1, 3); ++k) RunOne<Poly, InPoly>(s, c, part, &interesting);
  if (interesting) c.nontrivial();
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  using A = BSPPolygon<>;
  using B = BSPPolygon<walnut::AABBConvexPolygon<>>;
  switch (s.draw(4)) {
    case 0: case 1: RunAll<A, A>(s, c); break;
    case 2: RunAll<B, B>(s, c); c.label("with bounding boxes"); break;
    default: RunAll<A, B>(s, c); c.label("converted"); break;
  }
}

}  // namespace

PBT_MAIN((pbt::Property{"C03", "at least 3 splits, 3 points covered twice and a piece passed on", Run, 60}))
