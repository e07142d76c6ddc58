// Structural checks of connected output.
#ifndef VERIF_STRUCTURE_H
#define VERIF_STRUCTURE_H

#include "solid.h"

namespace gen {

// Every edge linked mutually to an edge that runs the other way between the
// same two points. Polygons without vertices are passed over.
template <class Poly>
void CheckConnected(const std::vector<Poly>& polys, bool strict, const char* what,
                    bool need_partner = true) {
  std::set<const void*> inside;
  for (const Poly& p : polys) inside.insert(static_cast<const void*>(&p));
  for (size_t i = 0; i < polys.size(); ++i) {
    const Poly& p = polys[i];
    if (p.vertex_count() == 0) continue;
    CheckPoly(p, strict, what);
    size_t n = p.vertex_count();
    for (size_t k = 0; k < n; ++k) {
      const auto& e = p.edge(k);
      PBT_CHECK(&e.polygon() == &p, what << ": edge " << k << " of facet " << i << " points to another polygon");
      PBT_CHECK(e.edge_index() == k, what << ": edge index " << e.edge_index() << " instead of " << k);
      const auto* q = e.partner();
      if (q == nullptr) {
        PBT_CHECK(!need_partner, what << ": edge " << k << " of facet " << FromPoly(p) << " has no partner");
        continue;
      }
      PBT_CHECK(inside.count(static_cast<const void*>(&q->polygon())), what << ": edge " << k << " of facet " << FromPoly(p)
                << " is linked to a polygon outside of the result");
      PBT_CHECK(&q->polygon() != &p, what << ": edge linked to its own facet " << FromPoly(p));
      const Poly& o = q->polygon();
      size_t j = q->edge_index();
      PBT_CHECK(j < o.vertex_count(), what << ": partner edge index " << j << " out of range");
      PBT_CHECK(o.edge(j).partner() == &e, what << ": link of edge " << k << " of facet " << FromPoly(p) << " is not mutual");
      P3 a = ToP(p.vertex(k)), b = ToP(p.vertex((k + 1) % n));
      P3 a2 = ToP(o.vertex(j)), b2 = ToP(o.vertex((j + 1) % o.vertex_count()));
      PBT_CHECK(a == b2 && b == a2, what << ": edge " << a << " -> " << b << " is linked to " << a2 << " -> " << b2);
    }
  }
}

// Convex loop clipped by the half-space s * (edge side) >= 0 in its plane.
inline Loop ClipConvex(const Loop& l, const Pl& h) {  // keeps h <= 0
  Loop r;
  size_t n = l.size();
  for (size_t i = 0; i < n; ++i) {
    const P3& a = l[i];
    const P3& b = l[(i + 1) % n];
    Q ea = h.Eval(a), eb = h.Eval(b);
    if (ea <= 0) r.push_back(a);
    if ((ea < 0 && eb > 0) || (ea > 0 && eb < 0)) {
      r.push_back(a + (b - a) * Q(ea / (ea - eb)));
    }
  }
  return r;
}
// Area vector of the intersection of two coplanar convex loops (of a).
inline Loop Intersect(const Loop& a, const Loop& b) {
  P3 n = AreaVec(b);
  Loop r = a;
  for (size_t i = 0; i < b.size() && r.size() >= 3; ++i) {
    const P3& p = b[i];
    const P3& q = b[(i + 1) % b.size()];
    Pl h;
    h.n = Cross(q - p, n);  // outward in the plane
    h.d = Dot(h.n, p);
    r = ClipConvex(r, h);
  }
  return r;
}
inline bool Coplanar(const Loop& a, const P3& an, const Loop& b, const P3& bn) {
  return Parallel(an, bn) && Dot(an, b[0] - a[0]) == 0;
}
// No two facets with the same orientation share area.
inline void CheckNoOverlap(const Mesh& m, const char* what) {
  std::vector<P3> n;
  for (const Loop& l : m) n.push_back(AreaVec(l));
  for (size_t i = 0; i < m.size(); ++i) {
    for (size_t j = i + 1; j < m.size(); ++j) {
      if (!Coplanar(m[i], n[i], m[j], n[j])) continue;
      if (Dot(n[i], n[j]) < 0) continue;
      Loop x = Intersect(m[i], m[j]);
      if (x.size() < 3) continue;
      PBT_CHECK(AreaVec(x).IsZero(), what << ": facets overlap: " << m[i] << " and " << m[j]);
    }
  }
}

}  // namespace gen
#endif
