// Running boolean operations of the library on generated operands.
#ifndef VERIF_BOOLEAN_H
#define VERIF_BOOLEAN_H

#include <deque>
#include <functional>
#include <memory>
#include <set>

#include "solid.h"
#include "walnut/boolean_operation_filter.h"
#include "walnut/bsp_tree.h"
#include "walnut/bsp_visitor.h"
#include "walnut/connecting_visitor.h"

namespace gen {

using walnut::BSPContentId;
using walnut::BSPContentInfo;
using walnut::BSPTree;

using FilterResult = std::pair<bool, bool>;
// Any filter of the library behind one type, so that the library's combinator
// templates can be nested to a depth chosen at run time.
struct DynFilter {
  std::function<FilterResult(const std::vector<BSPContentInfo>&)> f;
  FilterResult operator()(const std::vector<BSPContentInfo>& i) { return f(i); }
};
template <class F> DynFilter Dyn(F f) {
  auto p = std::make_shared<F>(std::move(f));
  return DynFilter{[p](const std::vector<BSPContentInfo>& i) { return (*p)(i); }};
}

// Set expression over operands: both the library's filter and the meaning.
struct Expr {
  enum Kind { kPos, kInv, kOdd, kAnd, kOr, kSub, kXor, kOrIds, kAndIds, kSubIds };
  Kind kind;
  BSPContentId id = 0;
  std::vector<BSPContentId> ids;
  std::vector<Expr> kids;

  template <class W> bool Eval(const W& w) const {
    switch (kind) {
      case kPos: return w(id) > 0;
      case kInv: return w(id) >= 0;
      case kOdd: return w(id) & 1;
      case kAnd: case kSub: return kids[0].Eval(w) && kids[1].Eval(w);
      case kOr: return kids[0].Eval(w) || kids[1].Eval(w);
      case kXor: return kids[0].Eval(w) != kids[1].Eval(w);
      case kOrIds: for (auto i : ids) if (w(i) > 0) return true; return false;
      case kAndIds: for (auto i : ids) if (w(i) <= 0) return false; return true;
      case kSubIds: {
        if (ids.empty() || w(ids[0]) <= 0) return false;
        for (size_t k = 1; k < ids.size(); ++k) if (w(ids[k]) < 0) return false;
        return true;
      }
    }
    return false;
  }
  // Adding facets' winding can only turn the expression on.
  bool Monotone() const {
    if (kind == kOdd || kind == kXor) return false;
    for (const Expr& k : kids) if (!k.Monotone()) return false;
    return true;
  }
  DynFilter Filter() const {
    switch (kind) {
      case kPos: return Dyn(walnut::PolygonFilter(id));
      case kInv: return Dyn(walnut::InvertedPolygonFilter(id));
      case kOdd: return Dyn(walnut::OddPolygonFilter(id));
      case kAnd: return Dyn(walnut::MakeIntersectionFilter(kids[0].Filter(), kids[1].Filter()));
      case kOr: return Dyn(walnut::MakeUnionFilter(kids[0].Filter(), kids[1].Filter()));
      case kSub: return Dyn(walnut::MakeSubtractionFilter(kids[0].Filter(), kids[1].Filter()));
      case kXor: return Dyn(walnut::MakeXORFilter(kids[0].Filter(), kids[1].Filter()));
      case kOrIds: return Dyn(walnut::UnionIdsFilter(ids));
      case kAndIds: return Dyn(walnut::IntersectIdsFilter(ids));
      case kSubIds: return Dyn(walnut::SubtractIdsFilter(ids));
    }
    return DynFilter();
  }
  void Show(std::ostream& o) const {
    static const char* names[] = {"pos", "inv", "odd", "and", "or", "sub", "xor", "or-ids", "and-ids", "sub-ids"};
    o << names[kind];
    if (kind <= kOdd) o << id;
    o << (kids.empty() && ids.empty() ? "" : "(");
    for (size_t i = 0; i < kids.size(); ++i) { if (i) o << ","; kids[i].Show(o); }
    for (size_t i = 0; i < ids.size(); ++i) { if (i) o << ","; o << ids[i]; }
    if (!kids.empty() || !ids.empty()) o << ")";
  }
};
inline std::ostream& operator<<(std::ostream& o, const Expr& e) { e.Show(o); return o; }

// ids: 0..n-1 have content (perhaps none), others up to n+1 do not exist.
inline Expr GenExpr(pbt::Src& s, size_t n, int depth, bool monotone, bool unknown_ids) {
  Expr e;
  auto id = [&]() -> BSPContentId {
    if (unknown_ids && s.chance(1, 12)) return n + s.draw(3);
    return s.draw(n);
  };
  auto ids = [&]() {
    std::vector<BSPContentId> r;
    for (size_t k = 0; s.more(k, 1, n > 4 ? n : 4); ++k) r.push_back(id());
    return r;
  };
  uint64_t k = s.draw(depth > 0 ? 10 : 4);
  switch (k) {
    case 0: case 1: e.kind = Expr::kPos; e.id = id(); return e;
    case 2: e.kind = Expr::kInv; e.id = id(); return e;
    case 3:
      e.kind = monotone ? Expr::kPos : Expr::kOdd;
      e.id = id();
      return e;
    case 4: e.kind = Expr::kOrIds; e.ids = ids(); return e;
    case 5: e.kind = s.flip() ? Expr::kAndIds : Expr::kSubIds; e.ids = ids(); return e;
    case 6: e.kind = Expr::kOr; break;
    case 7: e.kind = Expr::kAnd; break;
    case 8: e.kind = Expr::kSub; break;
    default: e.kind = monotone ? Expr::kOr : Expr::kXor; break;
  }
  e.kids.push_back(GenExpr(s, n, depth - 1, monotone, unknown_ids));
  e.kids.push_back(GenExpr(s, n, depth - 1, monotone, unknown_ids));
  return e;
}

using OutPoly = walnut::ConnectingVisitorOutputPolygon<>;

inline size_t GenKd(pbt::Src& s) {
  switch (s.draw(8)) {
    case 0: case 1: case 2: return 6;
    case 3: return static_cast<size_t>(-1);
    case 4: return 0;
    case 5: return 1;
    case 6: return 2;
    default: return s.draw(40);
  }
}

// Splits the (still empty or already filled) tree by a few planes, distinct
// along every path.
template <class Node>
void PreSplit(pbt::Src& s, Node& root, const std::vector<HalfSpace3>& planes, size_t max_splits) {
  struct Leaf { Node* n; std::vector<Pl> path; };
  std::vector<Leaf> leaves{{&root, {}}};
  for (size_t k = 0; s.more(k, 0, max_splits) && !planes.empty(); ++k) {
    size_t i = s.draw(leaves.size());
    HalfSpace3 h = s.pick(planes);
    if (s.flip()) h = -h;
    Pl p = ToPl(h);
    Pl np; np.n = -p.n; np.d = -p.d;
    bool dup = false;
    for (const Pl& o : leaves[i].path) dup = dup || SameHalfSpace(o, p) || SameHalfSpace(o, np);
    if (dup) continue;
    Leaf l = leaves[i];
    l.n->Split(h);
    l.path.push_back(p);
    leaves[i] = Leaf{l.n->negative_child(), l.path};
    leaves.push_back(Leaf{l.n->positive_child(), l.path});
  }
}

inline std::vector<HalfSpace3> CandidatePlanes(pbt::Src& s, const std::vector<Mesh>& ops, const Affine& map) {
  std::vector<HalfSpace3> r;
  for (const Mesh& m : ops) {
    for (size_t i = 0; i < m.size() && i < 4; ++i) r.push_back(PlaneOf(m[s.draw(m.size())], 1));
  }
  // Images of grid planes.
  for (int k = 0; k < 3; ++k) {
    int d = s.draw(3);
    long c = s.range(-2, 4);
    P3 o = IP(0, 0, 0), u = o, v = o;
    o[d] = c;
    u[(d + 1) % 3] = 1;
    v[(d + 2) % 3] = 1;
    r.push_back(PlaneOf(Loop{map(o), map(o + u), map(o + v)}, 1));
  }
  // Something oblique.
  P3 a = GridPoint(s), b = GridPoint(s), c = GridPoint(s);
  if (!Cross(b - a, c - a).IsZero()) r.push_back(PlaneOf(Loop{map(a), map(b), map(c)}, 1));
  return r;
}

struct BoolRun {
  std::vector<OutPoly> polys;
  std::vector<std::string> errors;
  size_t before_filter = 0;
};

template <class Tree> BoolRun RunConnecting(Tree& tree, DynFilter filter, size_t kd) {
  BoolRun r;
  auto log = [&r](const std::string& e) { r.errors.push_back(e); };
  walnut::ConnectingVisitor<DynFilter> visitor(filter, log);
  tree.Traverse(visitor, kd);
  r.before_filter = visitor.polygons().size();
  visitor.FilterEmptyPolygons();
  r.polys = visitor.TakePolygons();
  return r;
}

// The planes recorded for the edges of facets a visitor has taken can still be
// looked at and hold the edges. A CollectorVisitor keeps them all.
template <class Node>
void AllSplits(const Node& n, std::set<const HalfSpace3*>* out) {
  if (n.IsLeaf()) return;
  out->insert(&n.split());
  AllSplits(*n.negative_child(), out);
  AllSplits(*n.positive_child(), out);
}
template <class Polys>
void CheckRecords(const BSPTree<>& tree, const std::deque<HalfSpace3>& taken, const Polys& polys, bool all) {
  std::set<const HalfSpace3*> known;
  AllSplits(tree.root, &known);
  for (const HalfSpace3& h : taken) known.insert(&h);
  for (const auto& p : polys) {
    Loop l = FromPoly(p);
    if (const HalfSpace3* node = p.on_node_plane.split) {
      PBT_CHECK(known.count(node), "node plane of facet " << l << " is gone");
      Pl q = ToPl(*node);
      for (const P3& a : l) PBT_CHECK(q.Side(a) == 0, "node plane " << q << " of facet " << l << " misses it");
    }
    for (size_t i = 0; i < l.size(); ++i) {
      const P3 &a = l[i], &b = l[(i + 1) % l.size()];
      const auto& e = p.edge(i);
      const HalfSpace3* along[3] = {e.edge_first_coincident.split, e.edge_last_coincident.split, e.edge_created_by.split};
      static const char* const what[3] = {"first plane", "last plane", "plane that made the edge"};
      for (int k = 0; k < 3; ++k) {
        if (!along[k]) { PBT_CHECK(k == 2 || !all, "no " << what[k] << " along edge " << a << " " << b); continue; }
        PBT_CHECK(known.count(along[k]), what[k] << " of edge " << a << " " << b << " is gone");
        Pl q = ToPl(*along[k]);
        PBT_CHECK(q.Side(a) == 0 && q.Side(b) == 0, what[k] << " " << q << " misses edge " << a << " " << b);
      }
      const HalfSpace3* at = e.vertex_last_coincident.split;
      if (!at && !all) continue;
      PBT_CHECK(at && known.count(at), "plane at vertex " << a << " is gone");
      PBT_CHECK(ToPl(*at).Side(a) == 0, "plane recorded at vertex " << a << " misses it");
    }
  }
}

// One simple run: fresh tree, ids 0..n-1.
inline BoolRun RunBool(pbt::Src& s, const std::vector<Mesh>& ops, const Expr& e, const RepStyle& st,
                       size_t kd) {
  BSPTree<> tree;
  for (const Mesh& m : ops) {
    BSPContentId id = tree.AllocateId();
    tree.AddContents(id, ToPolys(s, m, st));
  }
  return RunConnecting(tree, e.Filter(), kd);
}

// Query points: generic points of the bounding box and points just off facets.
class Prober {
 public:
  Prober(pbt::Src& s, const std::vector<const Mesh*>& meshes) : s_(s) {
    bool first = true;
    for (const Mesh* m : meshes) {
      for (const Loop& l : *m) {
        for (const P3& p : l) {
          for (int i = 0; i < 3; ++i) {
            if (first || p[i] < lo_[i]) lo_[i] = p[i];
            if (first || p[i] > hi_[i]) hi_[i] = p[i];
          }
          first = false;
        }
      }
    }
    empty_ = first;
    for (int i = 0; i < 3; ++i) {
      Q d = hi_[i] - lo_[i];
      if (d == 0) d = 1;
      lo_[i] -= d / 16;
      hi_[i] += d / 16;
    }
  }
  P3 Random() {
    P3 r;
    for (int i = 0; i < 3; ++i) {
      r[i] = lo_[i] + (hi_[i] - lo_[i]) * Q(static_cast<long>(1 + s_.draw(100002)), 100003L);
    }
    return r;
  }
  // Pair of points on both sides of a facet, closer than anything else.
  void Near(const Loop& l, P3* out, P3* in) {
    P3 c = InnerPoint(s_, l);
    P3 n = AreaVec(l);
    Z m = 1;
    for (int i = 0; i < 3; ++i) {
      m += abs(n[i].get_num());
      m += n[i].get_den() * c[i].get_den();
    }
    Q eps = Frac(Z(1), Pow2(300) * m * m);
    *out = c + n * eps;
    *in = c - n * eps;
  }
  bool empty() const { return empty_; }

 private:
  pbt::Src& s_;
  P3 lo_, hi_;
  bool empty_ = true;
};

struct OpSet {
  std::vector<Mesh> meshes;
  std::vector<Winder> winders;
  void Prepare() {
    winders.clear();
    for (const Mesh& m : meshes) winders.emplace_back(m);
  }
  // Winding number of every operand; false if degenerate.
  bool At(const P3& q, std::vector<int>* w) const {
    w->resize(meshes.size());
    for (size_t i = 0; i < meshes.size(); ++i) {
      if (!winders[i].Wind(q, &(*w)[i])) return false;
    }
    return true;
  }
};
inline bool EvalAt(const Expr& e, const std::vector<int>& w) {
  return e.Eval([&](BSPContentId i) { return i < w.size() ? w[i] : 0; });
}

// Compares the result's winding number with the set expression at query points.
inline size_t CheckSolid(pbt::Src& s, const OpSet& ops, const Expr& e, const Mesh& result,
                         size_t n_random, size_t n_near, bool* mixed = nullptr,
                         const std::vector<P3>& extra_points = {}) {
  Winder rw(result);
  std::vector<const Mesh*> all;
  for (const Mesh& m : ops.meshes) all.push_back(&m);
  all.push_back(&result);
  Prober pr(s, all);
  bool base = EvalAt(e, std::vector<int>(ops.meshes.size(), 0));
  bool mono = e.Monotone();
  size_t judged = 0;
  bool in_seen = false, out_seen = false;
  auto judge = [&](const P3& q, const char* where) {
    std::vector<int> w;
    int r;
    if (!ops.At(q, &w) || !rw.Wind(q, &r)) return;
    bool want = EvalAt(e, w);
    ++judged;
    (want ? in_seen : out_seen) = true;
    std::ostringstream ws;
    for (int x : w) ws << " " << x;
    if (mono) {
      int exp = int(want) - int(base);
      PBT_CHECK(r == exp, where << " point " << q << ": winding number of the result is " << r << ", expected " << exp
                << "; operand windings" << ws.str() << "\nresult:\n" << Show(result));
    } else {
      int exp = int(want) ^ int(base);
      PBT_CHECK((r & 1) == exp, where << " point " << q << ": parity of the result is " << (r & 1) << ", expected " << exp
                << "; operand windings" << ws.str() << "\nresult:\n" << Show(result));
    }
  };
  for (const P3& q : extra_points) judge(q, "given");
  if (!pr.empty()) {
    for (size_t i = 0; i < n_random; ++i) judge(pr.Random(), "random");
    for (size_t i = 0; i < n_near; ++i) {
      const Mesh& m = *all[i % all.size()];
      if (m.empty()) continue;
      // Sweep the facets so that small meshes are covered completely.
      const Loop& l = m[n_near / all.size() >= m.size() ? (i / all.size()) % m.size() : s.draw(m.size())];
      P3 a, b;
      pr.Near(l, &a, &b);
      judge(a, "outside a facet,");
      judge(b, "inside a facet,");
    }
  }
  if (mixed) *mixed = in_seen && out_seen;
  return judged;
}

}  // namespace gen
#endif
