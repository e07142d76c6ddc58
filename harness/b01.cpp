// B01: winding number of boolean results against the set expression.
#include "boolean.h"

using namespace gen;

static void Run(pbt::Src& s, pbt::Ctx& c) {
  // Sometimes many operands.
  bool many = s.draw(16) == 15;
  size_t n = many ? s.size(5, 10) : s.size(1, 4);
  OpSet ops;
  Affine map = GenAffine(s);
  for (size_t i = 0; i < n; ++i) ops.meshes.push_back(many ? GenShape(s) : GenOperand(s, ops.meshes));
  for (Mesh& m : ops.meshes) m = map(m);
  bool mono = !s.chance(1, 6);
  Expr e;
  if (n > 1 && s.chance(1, 4)) {
    // What users write: one operation on all operands.
    e.kind = s.pick(std::vector<Expr::Kind>{Expr::kSubIds, Expr::kAndIds, Expr::kOrIds});
    for (size_t i = 0; i < n; ++i) e.ids.push_back(i);
    s.shuffle(e.ids);
    if (e.kind == Expr::kSubIds) for (size_t i = 1; i < n; ++i) {
      Mesh& m = ops.meshes[e.ids[i]];
      // Covers some of its points twice.
      if (s.chance(1, 3)) Append(m, Translate(m, IP(s.range(-1, 1), s.range(-1, 1), s.range(-1, 1))));
      m = Flip(m);
    }
    c.label("one operation");
  } else {
    e = GenExpr(s, n, 2, mono, false);
    // Subtrahends are given turned inside out.
    for (Mesh& m : ops.meshes) if (s.chance(1, 3)) m = Flip(m);
  }
  for (Mesh& m : ops.meshes) s.shuffle(m);
  ops.Prepare();
  RepStyle st = GenRepStyle(s);
  size_t kd = GenKd(s);
  c << "expr " << e << " kd " << (long)kd << (st.scales ? " scaled" : "") << "\n";
  for (size_t i = 0; i < n; ++i) c << "operand " << i << " (" << ops.meshes[i].size() << " facets)\n" << Show(ops.meshes[i]);

  BSPTree<> tree;
  bool before = s.flip();
  std::vector<HalfSpace3> planes;
  bool presplit = s.chance(1, 3);
  if (presplit) planes = CandidatePlanes(s, ops.meshes, map);
  if (presplit && before) PreSplit(s, tree.root, planes, 4);
  for (size_t i = 0; i < n; ++i) {
    BSPContentId id = tree.AllocateId();
    tree.AddContents(id, ToPolys(s, ops.meshes[i], st));
  }
  if (presplit && !before) PreSplit(s, tree.root, planes, 4);
  Mesh result;
  if (e.Monotone()) {
    BoolRun r = RunConnecting(tree, e.Filter(), kd);
    result = FromPolys(r.polys);
    // Traversing again gives the same solid.
    if (s.chance(1, 8)) {
      BoolRun r2 = RunConnecting(tree, e.Filter(), kd);
      PBT_CHECK(Volume6(FromPolys(r2.polys)) == Volume6(result), "second traversal gives another volume");
    }
  } else {
    // Facets keep the orientation they had: only the set of facets counts.
    walnut::CollectorVisitor<OutPoly, DynFilter> v(e.Filter());
    tree.Traverse(v, kd);
    result = FromPolys(v.polygons());
  }
  bool mixed = false;
  size_t judged = CheckSolid(s, ops, e, result, 8, 24, &mixed);
  c.count(judged);
  if (mixed && !result.empty()) c.nontrivial();
  c.label(e.Monotone() ? "connected" : "parity");
  c.label(result.empty() ? "empty result" : "result");
  for (const Mesh& m : ops.meshes) if (m.size() > 40) { c.label("kd-sized operand"); break; }
  if (many) c.label("many operands");
  for (const Mesh& m : ops.meshes) for (const Loop& l : m) if (l.size() > 10) { c.label("facet of more than 10 sides"); return; }
}

PBT_MAIN((pbt::Property{"B01", "the query points include both points inside and outside the expression and the result has facets", Run, 60}))
