// B04: results of boolean operations used as operands again.
#include "boolean.h"
#include "structure.h"

using namespace gen;

namespace {

// A solid computed by the library together with its definition.
struct Node {
  // 0/1 membership at a point: nullptr for an input.
  int input = -1;
  int op = 0;           // 0 or, 1 and, 2 sub, 3 three-way or
  size_t a = 0, b = 0, c = 0;
  std::vector<OutPoly> polys;
  int depth = 0;
};

bool Member(const std::vector<Node>& nodes, size_t i, const std::vector<int>& w) {
  const Node& n = nodes[i];
  if (n.input >= 0) return w[n.input] > 0;
  bool a = Member(nodes, n.a, w), b = Member(nodes, n.b, w);
  switch (n.op) {
    case 0: return a || b;
    case 1: return a && b;
    case 2: return a && !b;
    default: return a || b || Member(nodes, n.c, w);
  }
}
std::string Name(const std::vector<Node>& nodes, size_t i) {
  const Node& n = nodes[i];
  if (n.input >= 0) return "X" + std::to_string(n.input);
  static const char* op[] = {"or", "and", "minus", "or"};
  std::string r = "(" + Name(nodes, n.a) + " " + op[n.op] + " " + Name(nodes, n.b);
  if (n.op == 3) r += " or " + Name(nodes, n.c);
  return r + ")";
}

// Adds the facets of a result in one of the ways the library accepts them.
void Feed(pbt::Src& s, BSPTree<>& tree, BSPContentId id, const std::vector<OutPoly>& polys, bool invert,
          std::string* how) {
  switch (s.draw(4)) {
    case 0: {
      *how += invert ? "copied-inverted " : "copied ";
      std::vector<walnut::MutableConvexPolygon<>> m(polys.begin(), polys.end());
      if (invert) for (auto& p : m) p.Invert();
      tree.AddContents(id, m);
      return;
    }
    case 1: {
      *how += invert ? "moved-inverted " : "moved ";
      std::vector<walnut::MutableConvexPolygon<>> m(polys.begin(), polys.end());
      if (invert) for (auto& p : m) p.Invert();
      tree.AddContents(id, std::move(m));
      return;
    }
    case 2: {
      if (invert) {
        *how += "one-by-one-inverted ";
        for (const OutPoly& p : polys) {
          walnut::MutableConvexPolygon<> m(p);
          m.Invert();
          tree.AddContent(id, m);
        }
      } else {
        *how += "direct ";
        tree.AddContents(id, polys);
      }
      return;
    }
    default: {
      *how += invert ? "aabb-inverted " : "aabb ";
      std::vector<walnut::MutableConvexPolygon<>> m(polys.begin(), polys.end());
      if (invert) for (auto& p : m) p.Invert();
      std::vector<walnut::AABBConvexPolygon<>> n(m.begin(), m.end());
      tree.AddContents(id, n);
      return;
    }
  }
}

void Eval(pbt::Src& s, std::vector<Node>& nodes, size_t i, size_t kd, std::string* how) {
  Node& n = nodes[i];
  BSPTree<> tree;
  std::vector<std::string> errors;
  auto log = [&](const std::string& e) { errors.push_back(e); };
  BSPContentId x = tree.AllocateId(), y = tree.AllocateId(), z = tree.AllocateId();
  Feed(s, tree, x, nodes[n.a].polys, false, how);
  Feed(s, tree, y, nodes[n.b].polys, n.op == 2, how);
  if (n.op == 3) Feed(s, tree, z, nodes[n.c].polys, false, how);
  Expr e;
  e.kids.resize(2);
  e.kids[0].kind = e.kids[1].kind = Expr::kPos;
  e.kids[0].id = x;
  e.kids[1].id = y;
  switch (n.op) {
    case 0: e.kind = Expr::kOr; break;
    case 1: e.kind = Expr::kAnd; break;
    case 2: e.kind = Expr::kSub; e.kids[1].kind = Expr::kInv; break;
    default: e.kids.clear(); e.kind = Expr::kOrIds; e.ids = {x, y, z}; break;
  }
  BoolRun r = RunConnecting(tree, e.Filter(), kd);
  PBT_CHECK(r.errors.empty(), "error while evaluating " << Name(nodes, i) << ": " << r.errors[0]);
  CheckConnected(r.polys, false, "chained result");
  n.polys = std::move(r.polys);
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  OpSet ops;
  Affine map = GenAffine(s);
  size_t n = s.size(2, 4);
  for (size_t i = 0; i < n; ++i) ops.meshes.push_back(GenOperand(s, ops.meshes));
  for (Mesh& m : ops.meshes) { m = map(m); s.shuffle(m); }
  ops.Prepare();
  std::vector<Node> nodes;
  RepStyle st = GenRepStyle(s);
  size_t kd = GenKd(s);
  std::string how;
  for (size_t i = 0; i < n; ++i) {
    Node x;
    x.input = i;
    // Made a plain solid (winding 0 or 1) by the library.
    Expr e;
    e.kind = Expr::kPos;
    x.polys = RunBool(s, {ops.meshes[i]}, e, st, kd).polys;
    nodes.push_back(std::move(x));
    c << "operand " << i << " (" << ops.meshes[i].size() << " facets)\n" << Show(ops.meshes[i]);
  }
  size_t steps = s.size(1, 4);
  for (size_t k = 0; k < steps; ++k) {
    Node x;
    x.op = s.draw(4);
    // The newest nodes are preferred, so that chains get deep.
    auto any = [&]() -> size_t {
      size_t b = s.draw(3) == 0 ? s.draw(nodes.size()) : nodes.size() - 1 - s.draw(std::min<size_t>(2, nodes.size()));
      return b;
    };
    x.a = any();
    x.b = any();
    x.c = any();
    x.depth = 1 + std::max(nodes[x.a].depth, nodes[x.b].depth);
    nodes.push_back(std::move(x));
    Eval(s, nodes, nodes.size() - 1, kd, &how);
    if (nodes.back().polys.size() > 400) break;
  }
  size_t last = nodes.size() - 1;
  c << "kd " << (long)kd << " " << Name(nodes, last) << " fed " << how << "\n";
  // Point by point against the inputs.
  Mesh result = FromPolys(nodes[last].polys);
  Winder rw(result);
  std::vector<const Mesh*> all;
  for (const Mesh& m : ops.meshes) all.push_back(&m);
  all.push_back(&result);
  Prober pr(s, all);
  size_t judged = 0, in = 0;
  auto judge = [&](const P3& q, const char* where) {
    std::vector<int> w;
    int r;
    if (!ops.At(q, &w) || !rw.Wind(q, &r)) return;
    ++judged;
    int want = Member(nodes, last, w);
    in += want;
    std::ostringstream ws;
    for (int x : w) ws << " " << x;
    PBT_CHECK(r == want, where << " point " << q << ": winding number of the chained result is " << r << ", expected "
              << want << "; operand windings" << ws.str() << " of " << Name(nodes, last) << "\nresult:\n" << Show(result));
  };
  if (!pr.empty()) {
    for (int i = 0; i < 8; ++i) judge(pr.Random(), "random");
    for (int i = 0; i < 24; ++i) {
      const Mesh& m = *all[i % all.size()];
      if (m.empty()) continue;
      P3 a, b;
      pr.Near(s.pick(m), &a, &b);
      judge(a, "outside a facet,");
      judge(b, "inside a facet,");
    }
  }
  // Self operations on the result.
  int self = s.draw(3);
  Node x;
  x.a = x.b = last;
  x.op = self;
  nodes.push_back(std::move(x));
  Eval(s, nodes, nodes.size() - 1, kd, &how);
  Q v = Volume6(result), v2 = Volume6(FromPolys(nodes.back().polys));
  if (self == 2) {
    PBT_CHECK(v2 == 0, "result minus itself has volume/6 " << v2);
    int r;
    Mesh m = FromPolys(nodes.back().polys);
    Winder w2(m);
    if (!pr.empty()) for (int i = 0; i < 6; ++i) {
      P3 q = pr.Random();
      if (w2.Wind(q, &r)) PBT_CHECK(r == 0, "result minus itself contains " << q);
    }
  } else {
    PBT_CHECK(v2 == v, "result with itself has volume/6 " << v2 << " instead of " << v);
  }
  c.count(judged);
  c.label("depth " + std::to_string(nodes[last].depth));
  if (in && result.size() >= 4 && nodes[last].depth >= 2) c.nontrivial();
}

}  // namespace

PBT_MAIN((pbt::Property{"B04", "at least two chained operations, a result with 4 or more facets and a query point inside", Run, 90}))
