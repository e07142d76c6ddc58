// Linking facets along the lines they share, and the exact order of facets
// around a line.
#ifndef VERIF_LINKS_H
#define VERIF_LINKS_H

#include <deque>
#include "poly.h"
#include "walnut/connected_polygon.h"
#include "walnut/edge_line_connector.h"

namespace gen {

// Undirected line through two points, in a form that can be compared.
struct LineKey {
  P3 d, m;
  LineKey(const P3& a, const P3& b) {
    d = b - a;
    int k = 0;
    while (d[k] == 0) ++k;
    d = d * Q(1 / d[k]);
    m = Cross(a, d);
  }
  bool operator<(const LineKey& o) const { return d != o.d ? d < o.d : m < o.m; }
};

// A component that the normal of some plane through the line has.
inline int DropDimension(pbt::Src& s, const P3& dir) {
  std::vector<int> dims;
  for (int k = 0; k < 3; ++k) if (dir[(k + 1) % 3] != 0 || dir[(k + 2) % 3] != 0) dims.push_back(k);
  return s.pick(dims);
}

// Connects the edges on one line. Returns the number of reported errors.
template <class Poly> int ConnectOn(pbt::Src& s, const std::vector<Poly*>& polys, const LineKey& key) {
  using EdgeRep = typename Poly::EdgeRep;
  std::vector<EdgeRep*> on;
  for (Poly* p : polys) {
    size_t n = p->vertex_count();
    for (size_t i = 0; i < n; ++i) {
      LineKey k(ToP(p->vertex(i)), ToP(p->vertex((i + 1) % n)));
      if (!(k < key) && !(key < k)) on.push_back(&p->edge(i));
    }
  }
  s.shuffle(on);
  std::vector<walnut::Deed<EdgeRep>> deeds;
  for (EdgeRep* e : on) deeds.emplace_back(e);
  int errors = 0;
  walnut::EdgeLineConnector<EdgeRep> connector;
  connector.ConnectUnsorted(deeds.begin(), deeds.end(), DropDimension(s, key.d),
                            [&](const std::string&) { ++errors; });
  return errors;
}
template <class Poly> int ConnectLine(pbt::Src& s, std::vector<Poly>& polys, const LineKey& key) {
  std::vector<Poly*> ps;
  for (Poly& p : polys) ps.push_back(&p);
  return ConnectOn(s, ps, key);
}
template <class Polys> std::set<LineKey> AllLines(const Polys& polys) {
  std::set<LineKey> keys;
  for (const auto& p : polys) {
    size_t n = p.vertex_count();
    for (size_t i = 0; i < n; ++i) keys.insert(LineKey(ToP(p.vertex(i)), ToP(p.vertex((i + 1) % n))));
  }
  return keys;
}
template <class Polys> int ConnectAll(pbt::Src& s, Polys& polys, bool skip_some = false) {
  int errors = 0;
  for (const LineKey& k : AllLines(polys)) {
    if (skip_some && s.chance(1, 8)) continue;
    errors += ConnectLine(s, polys, k);
  }
  return errors;
}

}  // namespace gen
#endif
