// V03: exporting facets to a dataset keeps facets, order and shared vertices.
#include "boolean.h"
#include "doubles.h"
#include "linked.h"
#include "vtk.h"

#include "walnut/aabb_convex_polygon.h"
#include "walnut/vtk_to_walnut_mesh.h"
#include "walnut/walnut_to_vtk_mesh.h"

using namespace gen;
using walnut::AABBConvexPolygon;
using walnut::ConnectedPolygon;
using walnut::ConvexPolygon;
using walnut::MutableConvexPolygon;

namespace {

// Some forms of a vertex are joined because facets are linked around it.
template <class Polys> auto Joins(const Polys& polys, UnionFind& u, int) -> decltype(polys[0].edge(0).partner(), void()) {
  for (const auto& p : polys) for (size_t i = 0; i < p.vertex_count(); ++i) {
    const auto* next = p.edge(i).GetNextAroundVertex();
    if (next) u.Join(Key(p.vertex(i).GetDoublePoint3()), Key(next->vertex().GetDoublePoint3()));
  }
}
template <class Polys> void Joins(const Polys&, UnionFind&, long) {}

template <class Polys> void Link(pbt::Src& s, Polys& polys, int, decltype(polys[0].edge(0).partner())* = nullptr) { ConnectAll(s, polys, s.chance(1, 3)); }
template <class Polys> void Link(pbt::Src&, Polys&, long) {}

Cell Canonical(Cell c) {
  Cell best = c;
  for (size_t i = 0; i < c.size(); ++i) {
    std::rotate(c.begin(), c.begin() + 1, c.end());
    best = std::min(best, c);
  }
  return best;
}

template <class Poly> void Go(pbt::Src& s, pbt::Ctx& c, const std::vector<Mesh>& meshes, bool big, bool exact) {
  auto reused = vtkSmartPointer<vtkPolyData>::New();
  for (const Mesh& m : meshes) {
    std::vector<Poly> polys;
    RepStyle st = GenRepStyle(s);
    for (const Loop& l : m) {
      HalfSpace3 plane = PlaneOf(l, Z(1));
      std::vector<int> dims;
      for (int i = 0; i < 3; ++i) if (!plane.normal().components()[i].IsZero()) dims.push_back(i);
      std::vector<HomoPoint3> v;
      for (const P3& p : l) v.push_back(Homo(p, big ? BigScale(s) : st.scales ? GenScale(s, st.negative) : Z(1)));
      polys.emplace_back(plane, dims[0], v);
    }
    Link(s, polys, 0);
    for (const Loop& l : m) c << l << "\n";
    vtkSmartPointer<vtkPolyData> out = reused;
    if (s.flip()) out = walnut::WalnutToVTKMesh(polys); else walnut::SaveWalnutMeshToVTK(polys, out.Get());

    // Which doubles are one vertex.
    UnionFind u;
    for (const Poly& p : polys) for (size_t i = 0; i < p.vertex_count(); ++i) {
      DKey k = Key(p.vertex(i).GetDoublePoint3());
      P3 at = ToP(p.vertex(i));
      for (int d = 0; d < 3; ++d) PBT_CHECK(Near(k[d], at[d]), "coordinate " << at[d] << " became " << k[d]);
      u.Find(k);
    }
    size_t forms = u.up.size();
    Joins(polys, u, 0);
    std::map<DKey, vtkIdType> number;
    auto label = [&](const DKey& k) { return number.emplace(u.Find(k), (vtkIdType)number.size()).first->second; };
    std::vector<Cell> want, got;
    for (const Poly& p : polys) {
      Cell cell;
      for (size_t i = 0; i < p.vertex_count(); ++i) cell.push_back(label(Key(p.vertex(i).GetDoublePoint3())));
      want.push_back(cell);
    }
    std::vector<vtkIdType> id_label;
    std::set<vtkIdType> distinct;
    for (vtkIdType i = 0; i < out->GetNumberOfPoints(); ++i) {
      double x[3];
      out->GetPoint(i, x);
      DKey k{x[0] + 0.0, x[1] + 0.0, x[2] + 0.0};
      PBT_CHECK(u.up.count(k), "point " << k << " is not the double of any vertex");
      id_label.push_back(label(k));
      PBT_CHECK(distinct.insert(id_label.back()).second, "point " << k << " exists twice");
    }
    PBT_CHECK(distinct.size() == number.size(), distinct.size() << " points for " << number.size() << " vertices");
    PBT_CHECK(out->GetPolys()->GetNumberOfCells() == (vtkIdType)polys.size(), out->GetPolys()->GetNumberOfCells() << " cells for " << polys.size() << " facets");
    PBT_CHECK(out->GetNumberOfCells() == (vtkIdType)polys.size(), "the dataset has other cells");
    for (const Cell& cell : CellsOf(out->GetPolys())) {
      got.push_back({});
      for (vtkIdType v : cell) {
        PBT_CHECK(v >= 0 && v < (vtkIdType)id_label.size(), "cell uses point " << v << " of " << id_label.size());
        got.back().push_back(id_label[v]);
      }
    }
    size_t corners = 0;
    for (const Cell& cell : want) corners += cell.size();
    if (number.size() < corners && polys.size() >= 2 && !exact) c.nontrivial();
    if (forms > number.size()) c.label("several doubles are one vertex");
    for (Cell& cell : want) cell = Canonical(cell);
    for (Cell& cell : got) cell = Canonical(cell);
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    for (size_t i = 0; i < want.size(); ++i) PBT_CHECK(want[i] == got[i], "cells and facets differ");
    if (exact) {
      // Every vertex is a double: reading it back gives the same surface.
      auto back = walnut::VTKToWalnutMesh(out, INT_MIN, false);
      Surface sum;
      for (const Loop& l : m) sum.Add(l, -1);
      for (const auto& p : back) { CheckPoly(p, false, "read back"); sum.Add(FromPoly(p)); }
      PBT_CHECK(sum.empty(), "reading the dataset back gives another surface: " << sum.Show());
      c.label("read back");
      if (polys.size() >= 2) c.nontrivial();
    }
    c.count(corners);
  }
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  std::vector<Mesh> meshes;
  bool big = false, exact = false;
  size_t n = 1 + s.chance(1, 4);
  int kind = (int)s.draw(4);
  for (size_t i = 0; i < n; ++i) {
    Mesh m;
    if (kind == 0) { big = true; m = GenAmbiguous(s); }
    else if (kind == 1) {
      // Representable coordinates, of few or many bits.
      exact = true;
      m = GenOperand(s, {});
      int e = (int)s.range(-60, 40);
      Z f = s.flip() ? Z(1) : Z(static_cast<unsigned long>(s.draw(1UL << 48) | 1));
      for (Loop& l : m) for (P3& p : l) for (int d = 0; d < 3; ++d) { p[d] *= Q(f); if (e < 0) p[d] /= Q(Pow2(-e)); else p[d] *= Q(Pow2(e)); }
      for (const Loop& l : m) for (const P3& p : l) for (int d = 0; d < 3; ++d) if (Q(p[d].get_d()) != p[d]) throw pbt::Discard();
    } else {
      bool closed;
      m = GenPatched(s, &closed);
    }
    if (m.empty() && !s.chance(1, 8)) throw pbt::Discard();
    if (s.chance(1, 20)) m.clear();
    meshes.push_back(m);
  }
  switch (s.draw(5)) {
    case 0: c.label("ConvexPolygon"); Go<ConvexPolygon<>>(s, c, meshes, big, exact); break;
    case 1: c.label("MutableConvexPolygon"); Go<MutableConvexPolygon<>>(s, c, meshes, big, exact); break;
    case 2: c.label("AABBConvexPolygon"); Go<AABBConvexPolygon<>>(s, c, meshes, big, exact); break;
    default: c.label("ConnectedPolygon"); Go<ConnectedPolygon<>>(s, c, meshes, big, exact); break;
  }
}

}  // namespace

PBT_MAIN((pbt::Property{"V03", "at least two facets, sharing vertices or read back", Run, 30}))
