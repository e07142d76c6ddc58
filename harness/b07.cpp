// B07: membership filters and the pruning they allow.
#include "boolean.h"
#include <deque>
#include <set>

using namespace gen;

namespace {

void Ids(const Expr& e, std::set<BSPContentId>* out) {
  if (e.kind <= Expr::kOdd) out->insert(e.id);
  out->insert(e.ids.begin(), e.ids.end());
  for (const Expr& k : e.kids) Ids(k, out);
}

// The same through SetIds instead of the constructor.
DynFilter MakeFilter(pbt::Src& s, const Expr& e) {
  switch (e.kind) {
    case Expr::kOrIds: if (s.flip()) { walnut::UnionIdsFilter f; f.SetIds(e.ids); return Dyn(f); } return e.Filter();
    case Expr::kAndIds: if (s.flip()) { walnut::IntersectIdsFilter f; f.SetIds(e.ids); return Dyn(f); } return e.Filter();
    case Expr::kSubIds: if (s.flip()) { walnut::SubtractIdsFilter f; f.SetIds(e.ids); return Dyn(f); } return e.Filter();
    case Expr::kAnd: return Dyn(walnut::MakeIntersectionFilter(MakeFilter(s, e.kids[0]), MakeFilter(s, e.kids[1])));
    case Expr::kOr: return Dyn(walnut::MakeUnionFilter(MakeFilter(s, e.kids[0]), MakeFilter(s, e.kids[1])));
    case Expr::kSub: return Dyn(walnut::MakeSubtractionFilter(MakeFilter(s, e.kids[0]), MakeFilter(s, e.kids[1])));
    case Expr::kXor: return Dyn(walnut::MakeXORFilter(MakeFilter(s, e.kids[0]), MakeFilter(s, e.kids[1])));
    default: return e.Filter();
  }
}

void CheckTable(pbt::Src& s, pbt::Ctx& c) {
  size_t n = s.size(1, 4);
  Expr e = GenExpr(s, n, s.size(1, 4), false, true);
  // Lists without ids: a union of nothing is nothing.
  if (s.chance(1, 20)) { Expr z; z.kind = s.flip() ? Expr::kOrIds : Expr::kSubIds; Expr r; r.kind = s.flip() ? Expr::kOr : Expr::kAnd; r.kids = {e, z}; e = r; }
  DynFilter f = MakeFilter(s, e);
  std::set<BSPContentId> used;
  Ids(e, &used);
  c << "expr " << e << "\n";
  size_t rows = s.size(1, 12), fixed = 0;
  for (size_t row = 0; row < rows; ++row) {
    std::vector<BSPContentInfo> info(s.chance(1, 8) ? s.draw(n + 1) : n);
    std::vector<long> w(n + 4, 0);
    std::vector<BSPContentId> open;
    for (size_t i = 0; i < info.size(); ++i) {
      info[i].pwn = s.chance(1, 10) ? s.range(-1000000, 1000000) : s.range(-3, 3);
      w[i] = info[i].pwn;
      if (s.flip()) info[i].has_interior_polygons = 1 + s.draw(9);
      if (s.chance(1, 3)) info[i].has_border_polygons = 1 + s.draw(9);
      if (used.count(i) && (info[i].has_interior_polygons || info[i].has_border_polygons)) open.push_back(i);
    }
    FilterResult r = f(info);
    auto text = [&]() {
      std::ostringstream o;
      for (size_t i = 0; i < info.size(); ++i) o << " " << info[i].pwn << (info[i].has_interior_polygons ? "i" : "") << (info[i].has_border_polygons ? "b" : "");
      return o.str();
    };
    auto at = [&](BSPContentId i) { return i < w.size() ? w[i] : 0L; };
    bool now = e.Eval(at);
    PBT_CHECK(r.first == now, "inside is " << r.first << " for winding numbers" << text() << ", the expression is " << now);
    if (open.empty()) PBT_CHECK(!r.second, "may change without content for" << text());
    if (!r.second) {
      ++fixed;
      static const long val[5] = {0, 1, -1, 2, -2};
      std::vector<int> k(open.size(), 0);
      for (;;) {
        for (size_t i = 0; i < open.size(); ++i) w[open[i]] = val[k[i]];
        PBT_CHECK(e.Eval(at) == now, "reported as fixed for" << text() << " but changes with other winding numbers");
        size_t i = 0;
        while (i < k.size() && ++k[i] == 5) k[i++] = 0;
        if (i == k.size()) break;
      }
    }
    // A filter has no memory.
    FilterResult again = f(info);
    PBT_CHECK(again == r, "asked again for" << text() << " the answer differs");
    if (!open.empty() && !r.second) c.nontrivial();
  }
  c.label("table");
  c.count(rows);
}

struct NeverPrune {
  DynFilter f;
  FilterResult operator()(const std::vector<BSPContentInfo>& i) { return FilterResult(f(i).first, true); }
};

void AreaBy(const Mesh& m, std::map<std::vector<Q>, Q>* out) {
  for (const Loop& l : m) {
    P3 n = AreaVec(l);
    int k = n[0] != 0 ? 0 : n[1] != 0 ? 1 : 2;
    Q f = Q(1) / n[k];
    P3 u = n * f;
    std::vector<Q> key{Q(k), u[0], u[1], u[2], Dot(u, l[0])};
    Q& a = (*out)[key];
    a += n[k];
    if (a == 0) out->erase(key);
  }
}

void CheckTraversal(pbt::Src& s, pbt::Ctx& c) {
  size_t n = s.size(1, 3);
  OpSet ops;
  Affine map = GenAffine(s);
  for (size_t i = 0; i < n; ++i) ops.meshes.push_back(map(GenOperand(s, ops.meshes)));
  ops.Prepare();
  Expr e = GenExpr(s, n, 3, s.flip(), true);
  RepStyle st = GenRepStyle(s);
  size_t kd = GenKd(s);
  c << "traversal of " << e << " kd " << (long)kd << "\n";
  for (size_t i = 0; i < n; ++i) c << "operand " << i << "\n" << Show(ops.meshes[i]);
  Mesh r[2];
  for (int k = 0; k < 2; ++k) {
    BSPTree<> tree;
    for (const Mesh& m : ops.meshes) {
      BSPContentId id = tree.AllocateId();
      tree.AddContents(id, ToPolys(s, m, st));
    }
    DynFilter f = MakeFilter(s, e);
    if (k) f = DynFilter{NeverPrune{f}};
    walnut::CollectorVisitor<OutPoly, DynFilter> v(f);
    tree.Traverse(v, kd);
    r[k] = FromPolys(v.polygons());
    std::deque<HalfSpace3> planes;
    auto taken = v.TakePolygons(planes);
    PBT_CHECK(v.polygons().empty(), "facets are left after taking them");
    PBT_CHECK(FromPolys(taken) == r[k], "taken facets differ from the collected ones");
    CheckRecords(tree, planes, taken, true);
  }
  if (e.Monotone()) {
    std::map<std::vector<Q>, Q> a, b;
    AreaBy(r[0], &a);
    AreaBy(r[1], &b);
    PBT_CHECK(a == b, "pruning changed the surface:\n" << Show(r[0]) << "without pruning\n" << Show(r[1]));
  }
  PBT_CHECK(r[0].empty() || !r[1].empty(), "facets only with pruning");
  bool mixed = false;
  c.count(CheckSolid(s, ops, e, r[0], 6, 16, &mixed));
  if (mixed && !r[0].empty()) c.nontrivial();
  c.label("traversal");
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  if (s.draw(4) == 3) CheckTraversal(s, c);
  else CheckTable(s, c);
}

}  // namespace

PBT_MAIN((pbt::Property{"B07", "a table row is reported as fixed although content is left, or a traversal has points inside and outside", Run, 60}))
