// B02: boolean output is a closed, fully connected mesh of valid facets.
#include "boolean.h"
#include "structure.h"

using namespace gen;

static void Run(pbt::Src& s, pbt::Ctx& c) {
  size_t n = s.size(1, 4);
  OpSet ops;
  Affine map = GenAffine(s);
  for (size_t i = 0; i < n; ++i) ops.meshes.push_back(GenOperand(s, ops.meshes));
  for (Mesh& m : ops.meshes) m = map(m);
  Expr e = GenExpr(s, n, 2, true, true);
  for (Mesh& m : ops.meshes) if (s.chance(1, 3)) m = Flip(m);
  for (Mesh& m : ops.meshes) s.shuffle(m);
  RepStyle st = GenRepStyle(s);
  size_t kd = GenKd(s);
  c << "expr " << e << " kd " << (long)kd << (st.scales ? " scaled" : "") << "\n";
  for (size_t i = 0; i < n; ++i) c << "operand " << i << " (" << ops.meshes[i].size() << " facets)\n" << Show(ops.meshes[i]);

  BSPTree<> tree, tree2;
  size_t in_facets = 0;
  for (size_t i = 0; i < n; ++i) {
    auto polys = ToPolys(s, ops.meshes[i], st);
    in_facets += polys.size();
    BSPContentId id = tree.AllocateId();
    tree2.AllocateId();
    tree.AddContents(id, polys);
    tree2.AddContents(id, polys);
  }
  if (s.chance(1, 4)) {
    std::vector<HalfSpace3> planes = CandidatePlanes(s, ops.meshes, map);
    PreSplit(s, tree.root, planes, 3);
  }
  BoolRun r = RunConnecting(tree, e.Filter(), kd);
  PBT_CHECK(r.errors.empty(), "error reported for closed input: " << r.errors[0]);
  CheckConnected(r.polys, false, "result");
  // Splits that only existed during the traversal are forgotten.
  CheckRecords(tree, {}, r.polys, false);
  Mesh m = FromPolys(r.polys);
  CheckNoOverlap(m, "result");
  // The same without merging: never fewer facets.
  walnut::CollectorVisitor<OutPoly, DynFilter> v(e.Filter());
  tree2.Traverse(v, kd);
  c.count(1);
  PBT_CHECK(Volume6(FromPolys(v.polygons())) == Volume6(m), "merging changed the volume: "
            << Volume6(FromPolys(v.polygons())) << " before, " << Volume6(m) << " after");
  PBT_CHECK(r.polys.size() <= r.before_filter, "facets appeared while filtering");
  if (r.polys.size() >= 6) c.nontrivial();
  size_t links = 0;
  for (const OutPoly& p : r.polys) links += p.vertex_count();
  c.label(links > 60 ? "more than 60 edges" : "up to 60 edges");
  if (r.before_filter > r.polys.size()) c.label("merged");
  c << "facets in " << in_facets << ", accepted " << r.before_filter << ", out " << r.polys.size() << "\n";
}

PBT_MAIN((pbt::Property{"B02", "the result has at least 6 facets", Run, 60}))
