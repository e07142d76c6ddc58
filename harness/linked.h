// Meshes of linked facets together with a model of outlines, edge data and
// links that is followed through merges, moves and connecting of lines.
#ifndef VERIF_LINKED_H
#define VERIF_LINKED_H

#include "links.h"

namespace gen {

template <class P> auto CheckBoxIfAny(const P& p, const char* w, int) -> decltype(p.aabb(), void()) { CheckBox(p, w); }
template <class P> void CheckBoxIfAny(const P&, const char*, long) {}

template <class Poly_> struct Linked {
  using Poly = Poly_;
  using EdgeRep = typename Poly::EdgeRep;
  std::vector<std::vector<Poly>> store;
  // Model. Edges are known by the id of their data.
  std::map<long, Piece> faces;
  std::map<long, Pl> planes;
  std::map<long, long> face_of, link;
  long next_id = 0;
  int joints = 0;            // vertices dropped with a link on both sides
  // Where the edges are in the library, as of the last check.
  struct At { size_t st, poly, edge; };
  std::map<long, At> at;

  Poly& poly(const At& a) { return store[a.st][a.poly]; }
  EdgeRep& edge(const At& a) { return store[a.st][a.poly].edge(a.edge); }
  static Tag& tag(EdgeRep& e) { return static_cast<Tag&>(e); }

  // Takes over the outlines, data and links of some polygons from the library.
  // New edges get ids.
  template <class Pred> void Adopt(Pred pred) {
    std::vector<Poly*> ps;
    for (auto& v : store) for (Poly& p : v) if (p.vertex_count() && pred(p)) ps.push_back(&p);
    for (Poly* p : ps) for (size_t k = 0; k < p->vertex_count(); ++k) {
      long old = tag(p->edge(k)).id;
      if (old >= 0 && face_of.count(old)) { faces.erase(face_of[old]); planes.erase(face_of[old]); }
    }
    for (Poly* p : ps) {
      for (size_t k = 0; k < p->vertex_count(); ++k) {
        face_of.erase(tag(p->edge(k)).id);
        auto it = link.find(tag(p->edge(k)).id);
        if (it != link.end()) { long o = it->second; link.erase(it); link.erase(o); }
      }
    }
    for (Poly* p : ps) {
      std::set<long> used;
      for (size_t k = 0; k < p->vertex_count(); ++k) {
        // An edge that was split off has the data of the earlier part.
        long& id = tag(p->edge(k)).id;
        if (id < 0 || !used.insert(id).second) id = next_id++;
      }
      Piece m = PieceOf(*p);
      long f = m.tags[0].id;
      for (const Tag& t : m.tags) face_of[t.id] = f;
      faces[f] = m;
      planes[f] = ToPl(p->plane());
    }
    for (Poly* p : ps) {
      for (size_t k = 0; k < p->vertex_count(); ++k) {
        auto* q = p->edge(k).partner();
        if (q) { long a = tag(p->edge(k)).id, b = static_cast<Tag&>(*q).id; link[a] = b; link[b] = a; }
      }
    }
  }

  // Compares the library's state with the model.
  void Check(const char* what, bool geometry) {
    at.clear();
    std::set<long> seen;
    size_t edges = 0;
    for (size_t st = 0; st < store.size(); ++st) {
      for (size_t pi = 0; pi < store[st].size(); ++pi) {
        const Poly& p = store[st][pi];
        size_t n = p.vertex_count();
        if (n == 0) continue;
        auto tag_at = [&](size_t k) -> const Tag& { return static_cast<const Tag&>(p.edge(k)); };
        auto f = face_of.find(tag_at(0).id);
        PBT_CHECK(f != face_of.end(), what << ": edge " << tag_at(0) << " should be gone");
        Piece& m = faces[f->second];
        PBT_CHECK(seen.insert(f->second).second, what << ": facet " << m << " exists twice");
        PBT_CHECK(n == m.l.size(), what << ": facet has " << n << " vertices, expected " << m);
        size_t r = 0;
        while (r < n && m.tags[r].id != tag_at(0).id) ++r;
        PBT_CHECK(r < n, what << ": lost an edge of " << m);
        std::rotate(m.l.begin(), m.l.begin() + r, m.l.end());
        std::rotate(m.tags.begin(), m.tags.begin() + r, m.tags.end());
        for (size_t k = 0; k < n; ++k) {
          PBT_CHECK(tag_at(k) == m.tags[k], what << ": edge data " << tag_at(k) << " instead of " << m.tags[k] << " in " << m);
          PBT_CHECK(&p.edge(k).polygon() == &p, what << ": edge " << m.tags[k] << " points to another polygon");
          PBT_CHECK(p.edge(k).edge_index() == k, what << ": edge index " << p.edge(k).edge_index() << " of edge " << m.tags[k]);
          at[m.tags[k].id] = At{st, pi, k};
          if (geometry) PBT_CHECK(ToP(p.vertex(k)) == m.l[k], what << ": vertex " << ToP(p.vertex(k)) << " instead of " << m.l[k] << " in " << m);
          ++edges;
        }
        if (geometry) {
          CheckPoly(p, false, what);
          CheckBoxIfAny(p, what, 0);
          PBT_CHECK(SameHalfSpace(ToPl(p.plane()), planes[f->second]), what << ": plane of " << m << " changed");
          PBT_CHECK(p.IsValidState(), what << ": IsValidState is false");
        }
      }
    }
    PBT_CHECK(seen.size() == faces.size(), what << ": " << seen.size() << " facets instead of " << faces.size());
    for (const auto& a : at) {
      const EdgeRep& e = edge(a.second);
      auto want = link.find(a.first);
      if (want == link.end()) {
        PBT_CHECK(e.partner() == nullptr, what << ": edge #" << a.first << " should not be linked");
        PBT_CHECK(e.GetNextAroundVertex() == nullptr, what << ": edge around vertex without partner");
        continue;
      }
      PBT_CHECK(e.partner() != nullptr, what << ": edge #" << a.first << " lost its partner #" << want->second);
      auto w = at.find(want->second);
      PBT_CHECK(w != at.end(), "model: dangling link");
      const EdgeRep& q = edge(w->second);
      // By address first: a stale pointer must not be followed.
      PBT_CHECK(static_cast<const void*>(e.partner()) == static_cast<const void*>(
                    static_cast<const typename Poly::ConnectedEdgeRep*>(&q)),
                what << ": edge #" << a.first << " is not linked to #" << want->second);
      const Poly& o = store[w->second.st][w->second.poly];
      const auto* next = &o.edge((w->second.edge + 1) % o.vertex_count());
      PBT_CHECK(static_cast<const void*>(e.GetNextAroundVertex()) == static_cast<const void*>(
                    static_cast<const typename Poly::ConnectedEdgeRep*>(next)),
                what << ": next edge around the vertex of #" << a.first);
      if (geometry) {
        const Piece& m = faces[face_of[a.first]];
        const Piece& mo = faces[face_of[want->second]];
        size_t k = a.second.edge, j = w->second.edge;
        PBT_CHECK(m.l[k] == mo.l[(j + 1) % mo.l.size()] && m.l[(k + 1) % m.l.size()] == mo.l[j], what
                  << ": linked edges #" << a.first << " and #" << want->second << " do not run along the same stretch");
      }
    }
  }

  // Merges the polygons on both sides of an edge, in the library and in the
  // model, and checks everything. Returns whether the merge took place.
  bool Merge(pbt::Src& s, long id, long partner) {
    long fa = face_of[id], fb = face_of[partner];
    At pa = at[id], pb = at[partner];
    Piece want = faces[fa];
    P3 d = want.l[(pa.edge + 1) % want.l.size()] - want.l[pa.edge];
    std::vector<int> dims;
    for (int k = 0; k < 3; ++k) if (d[k] != 0) dims.push_back(k);
    auto join = [&](const Tag& prev, const Tag& next) {
      if (prev.sticky || next.sticky) return false;
      auto p = link.find(prev.id), n = link.find(next.id);
      if ((p == link.end()) != (n == link.end())) return false;
      if (p == link.end()) { face_of.erase(next.id); return true; }
      long ip = p->second, iq = n->second;  // iq comes before ip over there
      if (face_of[ip] != face_of[iq]) return false;
      Piece& o = faces[face_of[ip]];
      size_t kp = 0, kq = 0;
      while (o.tags[kp].id != ip) ++kp;
      while (o.tags[kq].id != iq) ++kq;
      PBT_CHECK((kq + 1) % o.l.size() == kp, "model: partners are not neighbours");
      if (o.tags[kp].sticky || o.tags[kq].sticky) return false;
      o.tags[kq].merges += 1 + o.tags[kp].merges;
      o.l.erase(o.l.begin() + kp);
      o.tags.erase(o.tags.begin() + kp);
      link.erase(next.id);
      link.erase(ip);
      link[prev.id] = iq;
      link[iq] = prev.id;
      face_of.erase(next.id);
      face_of.erase(ip);
      ++joints;
      return true;
    };
    bool yes = ModelMergeJoin(want, pa.edge, faces[fb], pb.edge, nullptr, join);
    bool got = poly(pa).TryMergePolygon(s.pick(dims), pa.edge, poly(pb), pb.edge);
    PBT_CHECK(got == yes, "merge along edge #" << id << " answered " << got << " although the union of " << faces[fa] << "and " << faces[fb]
              << (yes ? "is" : "is not") << " convex");
    if (yes) {
      faces.erase(fb);
      planes.erase(fb);
      faces[fa] = want;
      for (const Tag& t : want.tags) face_of[t.id] = fa;
      face_of.erase(id);
      face_of.erase(partner);
      link.erase(id);
      link.erase(partner);
      PBT_CHECK(poly(pb).vertex_count() == 0, "merged polygon keeps edges");
    }
    return yes;
  }

  std::vector<std::pair<long, long>> LinkedPairs(bool coplanar) {
    std::vector<std::pair<long, long>> r;
    for (const auto& l : link) {
      if (coplanar && !SameHalfSpace(planes[face_of[l.first]], planes[face_of[l.second]])) continue;
      r.push_back(l);
    }
    return r;
  }
};

// Surface cut into many facets: tilings of a plane, pillows, solids.
inline Mesh GenPatched(pbt::Src& s, bool* closed) {
  Mesh m;
  *closed = true;
  switch (s.draw(5)) {
    case 0: {
      *closed = false;
      m = Subdivide(s, {GenConvex(s, 6, s.chance(1, 3))}, 12);
      return m;
    }
    case 1: {
      Loop l = GenConvex(s, 6, s.chance(1, 3));
      m = Subdivide(s, {l}, 8);
      std::reverse(l.begin(), l.end());
      Append(m, Subdivide(s, {l}, 8));
      return m;
    }
    case 2: {
      // Two boxes, cells that share walls are left out.
      m = GenPolyCube(s, 4);
      break;
    }
    default: m = GenOperand(s, {}); break;
  }
  if (m.empty()) throw pbt::Discard();
  m = GenAffine(s)(m);
  return Subdivide(s, m, 10);
}

}  // namespace gen
#endif
