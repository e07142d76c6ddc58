// B06: borders of the cells of a partitioning tree inside a bounding box.
#include "boolean.h"
#include "structure.h"

using namespace gen;

namespace {

using Node = BSPTree<>::BSPNodeRep;

struct Bounds {
  P3 lo, hi;
  bool Cut(const Pl& p) const {
    bool neg = false, pos = false;
    for (int i = 0; i < 8; ++i) {
      int t = p.Side(P3((i & 1) ? hi[0] : lo[0], (i & 2) ? hi[1] : lo[1], (i & 4) ? hi[2] : lo[2]));
      neg |= t < 0;
      pos |= t > 0;
    }
    return neg && pos;
  }
  bool Wall(const Pl& p) const {
    int on = 0;
    for (int i = 0; i < 8; ++i) {
      on += p.Side(P3((i & 1) ? hi[0] : lo[0], (i & 2) ? hi[1] : lo[1], (i & 4) ? hi[2] : lo[2])) == 0;
    }
    return on == 4 && !Cut(p);
  }
};

Pl Neg(const Pl& p) { Pl r; r.n = -p.n; r.d = -p.d; return r; }

// Points of the plane of p in the box, facing along p.n; exact, by clipping a
// large square in the plane.
Loop Section(const Bounds& b, const Pl& p) {
  P3 c = (b.lo + b.hi) * Q(1, 2);
  P3 foot = c - p.n * (p.Eval(c) / Dot(p.n, p.n));
  P3 e(0, 0, 0);
  int k = 0;
  for (int i = 1; i < 3; ++i) if (abs(p.n[i]) < abs(p.n[k])) k = i;
  e[k] = 1;
  P3 u = Cross(p.n, e), v = Cross(p.n, u);
  P3 d = b.hi - b.lo;
  Q reach = d[0] + d[1] + d[2];
  // |u| and |v| in the maximum norm at least `reach`.
  auto grow = [&](P3 x) {
    Q m = 0;
    for (int i = 0; i < 3; ++i) if (abs(x[i]) > m) m = abs(x[i]);
    return x * Q(4 * reach / m);
  };
  u = grow(u);
  v = grow(v);
  Loop l{foot - u - v, foot + u - v, foot + u + v, foot - u + v};
  if (Dot(AreaVec(l), p.n) < 0) std::reverse(l.begin(), l.end());
  for (int i = 0; i < 3; ++i) {
    Pl w;
    w.n = P3(0, 0, 0);
    w.n[i] = 1;
    w.d = b.hi[i];
    l = ClipConvex(l, w);
    w.n[i] = -1;
    w.d = -b.lo[i];
    l = ClipConvex(l, w);
  }
  return l;
}

// Exact closed mesh of the box cut down to the given half-spaces (p <= 0).
Q CellVolume6(const Bounds& b, const std::vector<Pl>& cell) {
  std::vector<Pl> all = cell;
  for (int i = 0; i < 3; ++i) {
    Pl w;
    w.n = P3(0, 0, 0);
    w.n[i] = 1;
    w.d = b.hi[i];
    all.push_back(w);
    w.n[i] = -1;
    w.d = -b.lo[i];
    all.push_back(w);
  }
  Mesh m;
  for (size_t i = 0; i < all.size(); ++i) {
    bool dup = false;
    for (size_t j = 0; j < i; ++j) dup = dup || SameHalfSpace(all[j], all[i]);
    if (dup) continue;
    Loop l = Section(b, all[i]);
    for (size_t j = 0; j < all.size() && l.size() >= 3; ++j) if (j != i) l = ClipConvex(l, all[j]);
    if (l.size() >= 3) m.push_back(l);
  }
  return Volume6(m);
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  // Box with a denominator.
  Z den = s.flip() ? Z(1) : Z(1 + (long)s.draw(12));
  Bounds b;
  long cl[3], ch[3];
  for (int i = 0; i < 3; ++i) {
    cl[i] = s.range(-6, 6);
    ch[i] = cl[i] + 1 + s.draw(8);
  }
  Z scale = s.chance(1, 5) ? Pow2(1 + s.draw(90)) : Z(1);
  walnut::Vector3 vlo(FromZ(cl[0] * scale), FromZ(cl[1] * scale), FromZ(cl[2] * scale));
  walnut::Vector3 vhi(FromZ(ch[0] * scale), FromZ(ch[1] * scale), FromZ(ch[2] * scale));
  walnut::AABB box = s.flip() ? walnut::AABB(vlo, vhi, FromZ(den)) : walnut::AABB(-vlo, -vhi, FromZ(-den));
  for (int i = 0; i < 3; ++i) {
    b.lo[i] = Frac(cl[i] * scale, den);
    b.hi[i] = Frac(ch[i] * scale, den);
  }
  auto point = [&]() {
    P3 p;
    for (int i = 0; i < 3; ++i) p[i] = b.lo[i] + (b.hi[i] - b.lo[i]) * Q(s.range(-1, 5), 4L);
    return p;
  };
  BSPTree<> tree;
  std::vector<Pl> used;
  std::ostringstream log;
  auto gen_plane = [&](HalfSpace3* out) {
    P3 o, u, v;
    if (!used.empty() && s.chance(1, 10)) {
      // The same plane again (on another path), either way round.
      Pl p = s.pick(used);
      o = p.n * (p.d / Dot(p.n, p.n));
      P3 e(0, 0, 0);
      int k = 0;
      for (int i = 1; i < 3; ++i) if (abs(p.n[i]) < abs(p.n[k])) k = i;
      e[k] = 1;
      u = o + Cross(p.n, e);
      v = o + Cross(p.n, Cross(p.n, e));
    } else if (s.chance(2, 5)) {
      int d = s.draw(3);
      o = point();
      u = v = o;
      u[(d + 1) % 3] += 1;
      v[(d + 2) % 3] += 1;
    } else {
      o = point(); u = point(); v = point();
    }
    if (Cross(u - o, v - o).IsZero()) return false;
    *out = PlaneOf(Loop{o, u, v}, GenScale(s, false));
    if (s.flip()) *out = -*out;
    Pl p = ToPl(*out);
    return b.Cut(p) || b.Wall(p);
  };
  size_t splits = 0;
  for (size_t k = 0; s.more(k, 1, 10); ++k) {
    Node* node = &tree.root;
    std::vector<Pl> path;
    while (!node->IsLeaf()) {
      path.push_back(ToPl(node->split()));
      node = s.flip() ? node->positive_child() : node->negative_child();
    }
    HalfSpace3 h;
    if (!gen_plane(&h)) continue;
    Pl p = ToPl(h);
    bool dup = false;
    for (const Pl& o : path) dup = dup || SameHalfSpace(o, p) || SameHalfSpace(o, Neg(p));
    if (dup) continue;
    log << "split at depth " << path.size() << " by " << p << (b.Wall(p) ? " (wall)" : "") << "\n";
    used.push_back(p);
    node->Split(h);
    ++splits;
  }
  if (!splits) throw pbt::Discard();
  c << "box " << b.lo << " to " << b.hi << "\n" << log.str();
  // All nodes, leaves and interior.
  struct Visit { const Node* n; std::vector<bool> path; std::vector<Pl> cell; };
  std::vector<Visit> todo{Visit{&tree.root, {}, {}}};
  Q leaf_volume = 0;
  size_t cells = 0, full = 0, checked = 0;
  bool wall_split = false;
  while (!todo.empty()) {
    Visit x = todo.back();
    todo.pop_back();
    if (!x.n->IsLeaf()) {
      Pl p = ToPl(x.n->split());
      wall_split |= b.Wall(p);
      Visit l = x, r = x;
      l.n = x.n->negative_child();
      l.path.push_back(false);
      l.cell.push_back(p);
      r.n = x.n->positive_child();
      r.path.push_back(true);
      r.cell.push_back(Neg(p));
      todo.push_back(l);
      todo.push_back(r);
    }
    std::ostringstream name;
    for (bool t : x.path) name << (t ? '+' : '-');
    auto polys = tree.GetNodeBorder(x.path.begin(), x.path.end(), box);
    Mesh m;
    for (const auto& p : polys) if (p.vertex_count()) m.push_back(FromPoly(p));
    CheckConnected(polys, false, "cell border");
    CheckNoOverlap(m, "cell border");
    Q v = Volume6(m), want = CellVolume6(b, x.cell);
    PBT_CHECK(v == want, "border of cell " << name.str() << " encloses volume/6 " << v << " instead of " << want << ":\n" << Show(m));
    ++cells;
    if (v != 0) ++full;
    if (x.n->IsLeaf()) leaf_volume += v;
    // Every facet lies in a wall of the cell; together they are each wall.
    std::vector<Pl> walls = x.cell;
    for (int i = 0; i < 3; ++i) {
      Pl w;
      w.n = P3(0, 0, 0);
      w.n[i] = 1;
      w.d = b.hi[i];
      walls.push_back(w);
      w.n[i] = -1;
      w.d = -b.lo[i];
      walls.push_back(w);
    }
    for (const Loop& l : m) {
      P3 n = AreaVec(l);
      bool found = false;
      for (const Pl& w : walls) found = found || (SameDir(n, w.n) && w.Side(l[0]) == 0);
      PBT_CHECK(found, "border of cell " << name.str() << " has a facet that is in no wall of the cell: " << l);
      for (const Pl& w : walls) for (const P3& q : l) PBT_CHECK(w.Side(q) <= 0, "border of cell " << name.str() << " leaves the cell at " << q);
    }
    // Membership.
    Winder win(m);
    const Mesh bm = Box(b.lo, b.hi);
    Prober pr(s, {&bm, &m});
    for (int k = 0; k < 4; ++k) {
      P3 q;
      if (k < 2 || m.empty()) {
        q = pr.Random();
      } else {
        P3 in, out;
        pr.Near(s.pick(m), &out, &in);
        q = k == 2 ? in : out;
      }
      int w;
      if (!win.Wind(q, &w)) continue;
      bool inside = true, on = false;
      for (const Pl& h : walls) { int t = h.Side(q); if (t > 0) inside = false; if (t == 0) on = true; }
      if (on) continue;
      PBT_CHECK(w == int(inside), "point " << q << " has winding number " << w << " for the border of cell " << name.str() << ", " << (inside ? "inside" : "outside") << "\n" << Show(m));
      ++checked;
    }
    // Only the facets that come from the splits.
    auto open = tree.GetNodeBorderNoBoundWalls(x.path.begin(), x.path.end(), box);
    Mesh om;
    for (const auto& p : open) { CheckPoly(p, false, "cell border without walls"); om.push_back(FromPoly(p)); }
    CheckNoOverlap(om, "cell border without walls");
    for (const Loop& l : om) {
      P3 n = AreaVec(l);
      bool found = false;
      for (const Pl& w : x.cell) found = found || (SameDir(n, w.n) && w.Side(l[0]) == 0);
      PBT_CHECK(found, "cell " << name.str() << ": facet not on a split of its path: " << l);
      for (const Pl& w : walls) for (const P3& q : l) PBT_CHECK(w.Side(q) <= 0, "cell " << name.str() << ": facet " << l << " leaves the cell at " << q);
    }
    for (size_t i = 0; i < x.cell.size(); ++i) {
      Loop l = Section(b, x.cell[i]);
      for (size_t j = 0; j < x.cell.size() && l.size() >= 3; ++j) if (j != i) l = ClipConvex(l, x.cell[j]);
      P3 want_area = l.size() >= 3 ? AreaVec(l) : P3(0, 0, 0), got(0, 0, 0);
      for (const Loop& o : om) { P3 n = AreaVec(o); if (SameDir(n, x.cell[i].n) && x.cell[i].Side(o[0]) == 0) got = got + n; }
      PBT_CHECK(got == want_area, "cell " << name.str() << ": area vector " << got << " on " << x.cell[i] << " instead of " << want_area);
    }
  }
  P3 d = b.hi - b.lo;
  PBT_CHECK(leaf_volume == 6 * d[0] * d[1] * d[2], "leaf borders enclose " << leaf_volume << " in total");
  c.count(checked);
  c.label(wall_split ? "split on a wall" : "no split on a wall");
  if (cells > full) c.label("cells outside of the box");
  if (splits >= 3 && full >= 4) c.nontrivial();
}

}  // namespace

PBT_MAIN((pbt::Property{"B06", "at least 3 splits and 4 cells with volume", Run, 60}))
