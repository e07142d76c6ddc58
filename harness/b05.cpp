// B05: contents and winding numbers of the cells of a partitioning tree.
#include "boolean.h"

using namespace gen;
using walnut::SplitSide;

namespace {

using Node = BSPTree<>::BSPNodeRep;

struct Leaf {
  const Node* node;
  std::vector<std::pair<Pl, bool>> path;
  std::vector<const HalfSpace3*> splits;
};

void Leaves(const Node& n, std::vector<std::pair<Pl, bool>>& path, std::vector<const HalfSpace3*>& splits,
            std::vector<Leaf>& out) {
  if (n.IsLeaf()) {
    out.push_back(Leaf{&n, path, splits});
    return;
  }
  PBT_CHECK(n.contents().empty() && n.border_contents().empty(), "interior node still has contents");
  path.emplace_back(ToPl(n.split()), false);
  splits.push_back(&n.split());
  Leaves(*n.negative_child(), path, splits, out);
  path.back().second = true;
  Leaves(*n.positive_child(), path, splits, out);
  path.pop_back();
  splits.pop_back();
}

// 1 inside, 0 on the boundary, -1 outside of a convex loop; p is in its plane.
int InLoop(const Loop& l, const P3& n, const P3& p) {
  int r = 1;
  for (size_t i = 0; i < l.size(); ++i) {
    int t = sgn(Dot(n, Cross(l[(i + 1) % l.size()] - l[i], p - l[i])));
    if (t < 0) return -1;
    if (t == 0) r = 0;
  }
  return r;
}

// The edge of a piece runs along an edge of the facet.
bool AlongEdge(const Loop& l, const P3& a, const P3& b) {
  for (size_t i = 0; i < l.size(); ++i) {
    P3 d = l[(i + 1) % l.size()] - l[i];
    if (Cross(d, a - l[i]).IsZero() && Cross(d, b - l[i]).IsZero()) return true;
  }
  return false;
}

// The planes recorded for the edges of a piece.
size_t CheckRecords(const Node::PolygonRep& p, const Loop& l, const Leaf& leaf, const std::vector<Loop>& facets) {
  // The facets this piece may come from.
  std::vector<const Loop*> from;
  P3 n = AreaVec(l);
  for (const Loop& o : facets) {
    P3 on = AreaVec(o);
    if (!SameDir(on, n) || Dot(on, l[0] - o[0]) != 0) continue;
    bool all = true;
    for (const P3& v : l) if (InLoop(o, on, v) < 0) { all = false; break; }
    if (all) from.push_back(&o);
  }
  PBT_CHECK(!from.empty(), "piece " << l << " is in no facet of its mesh");
  size_t created = 0;
  for (size_t i = 0; i < l.size(); ++i) {
    const P3 &a = l[i], &b = l[(i + 1) % l.size()];
    SplitSide first, last, vertex, cutter;
    for (size_t k = 0; k < leaf.path.size(); ++k) {
      SplitSide here{leaf.splits[k], leaf.path[k].second};
      if (leaf.path[k].first.Side(a) != 0) continue;
      vertex = here;
      if (leaf.path[k].first.Side(b) != 0) continue;
      if (!first.split) first = here;
      if (!cutter.split && !Cross(leaf.path[k].first.n, n).IsZero()) cutter = here;
      last = here;
    }
    const auto& e = p.edge(i);
    PBT_CHECK(e.edge_first_coincident == first, "first split along edge " << a << " " << b << " of " << l);
    PBT_CHECK(e.edge_last_coincident == last, "last split along edge " << a << " " << b << " of " << l);
    PBT_CHECK(e.vertex_last_coincident == vertex, "last split at vertex " << a << " of " << l);
    if (from.size() == 1) {
      bool cut = !AlongEdge(*from[0], a, b);
      PBT_CHECK(e.edge_created_by == (cut ? cutter : SplitSide()), "split that made edge " << a << " " << b << " of " << l
                << (e.edge_created_by.split ? " is wrong" : " is not recorded"));
      created += cut;
    }
  }
  return created;
}

struct Piece {
  BSPContentId id;
  Loop l;
  P3 n;
};

HalfSpace3 GenPlane(pbt::Src& s, const std::vector<Mesh>& ops, const std::vector<P3>& verts, const Affine& map) {
  for (int tries = 0; tries < 8; ++tries) {
    P3 a, b, c;
    auto vert = [&]() { return verts.empty() || s.chance(1, 6) ? map(GridPoint(s)) : verts[s.draw(verts.size())]; };
    switch (s.draw(6)) {
      case 0: case 1: {
        const Mesh& m = s.pick(ops);
        if (m.empty()) continue;
        HalfSpace3 h = PlaneOf(s.pick(m), GenScale(s, false));
        return s.flip() ? -h : h;
      }
      case 2: {  // along an edge
        const Mesh& m = s.pick(ops);
        if (m.empty()) continue;
        const Loop& l = s.pick(m);
        size_t i = s.draw(l.size());
        a = l[i];
        b = l[(i + 1) % l.size()];
        if (s.flip()) c = vert();
        else { P3 e(0, 0, 0); e[s.draw(3)] = 1; c = a + e; }
        break;
      }
      case 3:
        a = vert(); b = vert(); c = vert();
        break;
      case 4: {  // axis plane through something
        a = vert();
        int d = s.draw(3);
        b = a; c = a;
        b[(d + 1) % 3] += 1;
        c[(d + 2) % 3] += 1;
        break;
      }
      default:
        a = map(GridPoint(s)); b = map(GridPoint(s)); c = map(GridPoint(s));
        break;
    }
    if (Cross(b - a, c - a).IsZero()) continue;
    HalfSpace3 h = PlaneOf(Loop{a, b, c}, GenScale(s, false));
    return s.flip() ? -h : h;
  }
  throw pbt::Discard();
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  size_t n = s.size(1, 3);
  OpSet ops;
  Affine map = GenAffine(s);
  for (size_t i = 0; i < n; ++i) ops.meshes.push_back(GenOperand(s, ops.meshes));
  std::vector<P3> verts;
  for (Mesh& m : ops.meshes) {
    m = map(m);
    s.shuffle(m);
    for (const Loop& l : m) verts.insert(verts.end(), l.begin(), l.end());
  }
  ops.Prepare();
  RepStyle st = GenRepStyle(s);
  for (size_t i = 0; i < n; ++i) c << "operand " << i << " (" << ops.meshes[i].size() << " facets)\n" << Show(ops.meshes[i]);

  BSPTree<> tree;
  if (s.chance(1, 6)) {
    // A tree that was used before.
    size_t k = s.size(1, 2);
    for (size_t i = 0; i < k; ++i) {
      auto polys = ToPolys(s, s.pick(ops.meshes), st);
      if (s.flip()) {
        tree.AddContents(tree.AllocateId(), polys);
      } else {
        for (auto& p : polys) {
          BSPContentId id = tree.next_id();
          tree.AddContent(p);
          PBT_CHECK(tree.next_id() == id + 1, "content got more than one id");
          PBT_CHECK(tree.root.IsLeaf() ? tree.root.contents().back().id == id : true, "id of new content");
        }
      }
      if (!tree.root.contents().empty() && s.flip()) tree.root.Split();
    }
    tree.Reset();
    PBT_CHECK(tree.next_id() == 0, "next id " << tree.next_id() << " after a reset");
    PBT_CHECK(tree.root.IsLeaf() && tree.root.contents().empty() && tree.root.border_contents().empty(), "content after a reset");
    c.label("tree used again");
  }
  // Splits and additions of content in any order.
  size_t next = 0;
  size_t max_splits = s.chance(1, 4) ? 24 : 10;
  std::ostringstream log;
  auto add = [&]() {
    BSPContentId id = tree.AllocateId();
    auto polys = ToPolys(s, ops.meshes[next], st);
    log << "add " << next << "\n";
    ++next;
    if (s.chance(1, 4)) {
      for (auto& p : polys) tree.AddContent(id, p);
    } else {
      tree.AddContents(id, std::move(polys));
    }
  };
  for (size_t k = 0; s.more(k, 1, max_splits); ++k) {
    if (next < n && !s.chance(1, 4)) { add(); continue; }
    // Walk to a random leaf.
    Node* node = &tree.root;
    std::vector<Pl> path;
    while (!node->IsLeaf()) {
      path.push_back(ToPl(node->split()));
      node = s.flip() ? node->positive_child() : node->negative_child();
    }
    if (!node->contents().empty() && s.chance(1, 3)) {
      node->Split();
      log << "split by own choice " << ToPl(node->split()) << "\n";
      continue;
    }
    HalfSpace3 h = GenPlane(s, ops.meshes, verts, map);
    Pl p = ToPl(h), np;
    np.n = -p.n; np.d = -p.d;
    bool dup = false;
    for (const Pl& o : path) dup = dup || SameHalfSpace(o, p) || SameHalfSpace(o, np);
    if (dup) continue;
    log << "split at depth " << path.size() << " by " << p << "\n";
    node->Split(h);
  }
  while (next < n) add();
  // Sometimes down to cells that only have border contents.
  bool finish = s.chance(1, 3);
  if (finish) {
    std::vector<Node*> todo{&tree.root};
    size_t guard = 0;
    while (!todo.empty()) {
      Node* x = todo.back();
      todo.pop_back();
      if (x->IsLeaf()) {
        if (x->contents().empty()) continue;
        if (++guard > 600) break;
        x->Split();
      }
      todo.push_back(x->negative_child());
      todo.push_back(x->positive_child());
    }
    log << "split until no contents are left\n";
  }
  c << log.str();

  std::vector<Leaf> leaves;
  std::vector<std::pair<Pl, bool>> path;
  std::vector<const HalfSpace3*> splits;
  Leaves(tree.root, path, splits, leaves);
  size_t created = 0;
  std::vector<Piece> pieces;
  size_t interior = 0, border = 0;
  for (const Leaf& leaf : leaves) {
    std::map<BSPContentId, std::pair<size_t, size_t>> counts;
    auto check_piece = [&](const Node::PolygonRep& p, bool is_border) {
      CheckPoly(p, false, "piece");
      Piece x{p.id, FromPoly(p), P3()};
      x.n = AreaVec(x.l);
      bool on_split = false;
      for (auto& step : leaf.path) {
        bool all_on = true;
        for (const P3& v : x.l) {
          int side = step.first.Side(v);
          if (side) all_on = false;
          PBT_CHECK(side == 0 || (side > 0) == step.second, "piece " << x.l << " reaches the wrong side of " << step.first);
        }
        if (all_on) {
          on_split = true;
          // Facing away from its cell.
          PBT_CHECK((Dot(x.n, step.first.n) > 0) != step.second, "piece " << x.l << " on " << step.first << " is in the wrong child");
          PBT_CHECK(is_border, "piece " << x.l << " on " << step.first << " is not border content");
          PBT_CHECK(p.on_node_plane.split != nullptr, "border piece without a split");
          Pl q = ToPl(*p.on_node_plane.split);
          PBT_CHECK(SameHalfSpace(q, step.first) && p.on_node_plane.pos_side == step.second,
                    "border piece " << x.l << " records " << q << " side " << p.on_node_plane.pos_side);
        }
      }
      PBT_CHECK(on_split == is_border, "border piece " << x.l << " is not on a split of its cell");
      created += CheckRecords(p, x.l, leaf, ops.meshes[p.id]);
      pieces.push_back(x);
    };
    for (const auto& p : leaf.node->contents()) { check_piece(p, false); counts[p.id].first++; ++interior; }
    for (const auto& p : leaf.node->border_contents()) { check_piece(p, true); counts[p.id].second++; ++border; }
    for (BSPContentId id = 0; id < n; ++id) {
      BSPContentInfo info = leaf.node->GetContentInfoForId(id);
      auto k = counts[id];
      PBT_CHECK(bool(info.has_interior_polygons) == bool(k.first), "has_interior_polygons " << info.has_interior_polygons << " but " << k.first << " of mesh " << id);
      PBT_CHECK(bool(info.has_border_polygons) == bool(k.second), "has_border_polygons " << info.has_border_polygons << " but " << k.second << " of mesh " << id);
      PBT_CHECK(info.has_polygons() == (k.first || k.second), "has_polygons");
    }
  }
  // Area per mesh and oriented plane.
  auto key = [](BSPContentId id, const Loop& l, const P3& n, Q* a) {
    int k = n[0] != 0 ? 0 : n[1] != 0 ? 1 : 2;
    Q f = Q(1) / n[k];
    if (f < 0) f = -f;
    P3 u = n * f;
    *a = n[k] < 0 ? Q(-n[k]) : n[k];
    return std::vector<Q>{Q(static_cast<long>(id)), u[0], u[1], u[2], Dot(u, l[0])};
  };
  std::map<std::vector<Q>, Q> before, after;
  for (size_t id = 0; id < n; ++id) for (const Loop& l : ops.meshes[id]) { Q a; auto k = key(id, l, AreaVec(l), &a); before[k] += a; }
  for (const Piece& p : pieces) { Q a; auto k = key(p.id, p.l, p.n, &a); after[k] += a; }
  PBT_CHECK(before.size() == after.size(), "pieces in " << after.size() << " oriented planes instead of " << before.size());
  for (auto& e : before) {
    PBT_CHECK(after.count(e.first) && after[e.first] == e.second, "area of mesh " << e.first[0] << " in the plane (" << e.first[1] << "," << e.first[2] << ","
              << e.first[3] << ") . x = " << e.first[4] << " was " << e.second << " and is " << (after.count(e.first) ? after[e.first] : Q(0)));
  }
  // The same points are covered equally often.
  std::vector<std::pair<size_t, size_t>> facets;
  for (size_t id = 0; id < n; ++id) for (size_t f = 0; f < ops.meshes[id].size(); ++f) facets.emplace_back(id, f);
  for (int k = 0; k < 12 && !facets.empty(); ++k) {
    auto x = s.pick(facets);
    const Loop& l = ops.meshes[x.first][x.second];
    P3 q = InnerPoint(s, l), ln = AreaVec(l);
    int want = 0, got = 0;
    bool degenerate = false;
    auto tally = [&](const Loop& o, const P3& on, int* t) {
      if (!SameDir(on, ln) || Dot(on, q - o[0]) != 0) return;
      int in = InLoop(o, on, q);
      if (in == 0) degenerate = true;
      if (in > 0) ++*t;
    };
    for (const Loop& o : ops.meshes[x.first]) tally(o, AreaVec(o), &want);
    for (const Piece& p : pieces) if (p.id == x.first) tally(p.l, p.n, &got);
    if (!degenerate) PBT_CHECK(want == got, "point " << q << " of mesh " << x.first << " is covered by " << got << " pieces, " << want << " before");
  }
  // Winding numbers of the cells.
  std::vector<const Mesh*> all;
  for (const Mesh& m : ops.meshes) all.push_back(&m);
  Prober pr(s, all);
  size_t judged = 0;
  bool nonzero = false;
  auto judge = [&](const P3& q) {
    std::vector<int> w;
    if (!ops.At(q, &w)) return;
    const Node* x = &tree.root;
    while (!x->IsLeaf()) {
      int side = ToPl(x->split()).Side(q);
      if (side == 0) return;
      x = side > 0 ? x->positive_child() : x->negative_child();
    }
    for (size_t id = 0; id < n; ++id) {
      BSPContentInfo info = x->GetContentInfoForId(id);
      if (info.has_interior_polygons) continue;
      ++judged;
      if (w[id]) nonzero = true;
      PBT_CHECK(info.pwn == w[id], "cell of " << q << " has winding number " << info.pwn << " for mesh " << id << ", the point has " << w[id]
                << (info.has_border_polygons ? " (with border content)" : ""));
    }
  };
  if (!pr.empty()) {
    for (int k = 0; k < 16; ++k) judge(pr.Random());
    for (int k = 0; k < 24 && !pieces.empty(); ++k) {
      P3 a, b;
      pr.Near(s.pick(pieces).l, &a, &b);
      judge(a);
      judge(b);
    }
  }
  c.count(judged);
  c.label(finish ? "finished tree" : "partial tree");
  if (leaves.size() >= 16) c.label("16 or more cells");
  if (border) c.label("border content");
  if (created) c.label("edges made by splits");
  c << leaves.size() << " cells, " << interior << " pieces inside, " << border << " on borders\n";
  if (nonzero && pieces.size() > facets.size()) c.nontrivial();
}

}  // namespace

PBT_MAIN((pbt::Property{"B05", "facets were cut, and a cell with a nonzero winding number was compared", Run, 60}))
