// P02: histories of operations on convex polygons, followed by a model of
// vertices, edge data and bounding boxes.
#include <memory>
#include "poly.h"

using namespace gen;
using walnut::AABBConvexPolygon;
using walnut::ConvexPolygon;
using walnut::ConvexPolygonSplitInfo;
using walnut::EdgeInfoRoot;
using walnut::MutableConvexPolygon;

namespace {

using Plain = ConvexPolygon<Tag>;
using TagPoly = MutableConvexPolygon<Tag>;
using BoxPoly = AABBConvexPolygon<ConvexPolygon<Tag>>;
// Box on top of the polygon type that exposes every mutation.
using MBox = AABBConvexPolygon<MutableConvexPolygon<Tag>>;

// Partitioning polygons that carry further data per edge.
using BspPoly = walnut::BSPPolygon<ConvexPolygon<>, Tag>;
using BspBox = walnut::BSPPolygon<AABBConvexPolygon<>, Tag>;

struct Entry {
  Piece m;
  Pl plane;
  int drop;
  TagPoly t;
  BoxPoly b;
  MBox x;
};

template <class Poly> void CheckOne(const Poly& p, const Entry& e, const char* type, const char* op) {
  std::string what = std::string(type) + " after " + op;
  CheckPoly(p, false, what.c_str());
  Piece got = PieceOf(p);
  PBT_CHECK(got.l == e.m.l, what << ": vertices " << got.l << " instead of " << e.m.l);
  for (size_t i = 0; i < got.l.size(); ++i) {
    PBT_CHECK(got.tags[i] == e.m.tags[i], what << ": edge " << i << " carries " << got.tags[i] << " instead of " << e.m.tags[i] << " in " << e.m);
  }
  PBT_CHECK(SameHalfSpace(ToPl(p.plane()), e.plane), what << ": plane is " << ToPl(p.plane()) << " instead of " << e.plane);
  PBT_CHECK(p.drop_dimension() == e.drop, what << ": drop dimension");
  PBT_CHECK(p.IsValidState(), what << ": IsValidState is false for a valid polygon");
}
void CheckEntry(const Entry& e, const char* op) {
  CheckOne(e.t, e, "polygon", op);
  CheckOne(e.b, e, "polygon with box", op);
  CheckOne(e.x, e, "mutable polygon with box", op);
  CheckBox(e.b, op);
  CheckBox(e.x, op);
}
// Starting vertex of the library's result, after the cyclic sequence matched.
void Align(Piece& want, const Piece& got, const char* op) {
  PBT_CHECK(SameCycle(want, got), op << ": polygon is " << got << " instead of " << want);
  want = got;
}

// The children of a partitioning polygon and the data of their edges.
template <class Poly> void CheckBspSplit(const Entry& e, const Entry& ne, const Entry& pe, const HalfSpace3& hs, bool move) {
  static const HalfSpace3 node(0, 0, 1, 0);
  Poly p(7, &node, true, static_cast<const Plain&>(e.t));
  for (size_t i = 0; i < e.m.l.size(); ++i) static_cast<Tag&>(p.bsp_edge_info(i)) = e.m.tags[i];
  ConvexPolygonSplitInfo info = p.GetSplitInfo(hs);
  Poly kept(p);
  auto ch = move ? std::move(p).CreateSplitChildren(std::move(info)) : p.CreateSplitChildren(info);
  auto same = [&](const Poly& q, const Entry& w, const char* what) {
    CheckPoly(q, false, what);
    Piece got = PieceOf(q);
    PBT_CHECK(got.l == w.m.l, what << ": vertices " << got.l << " instead of " << w.m.l);
    for (size_t i = 0; i < got.l.size(); ++i) {
      PBT_CHECK(got.tags[i] == w.m.tags[i], what << ": edge " << i << " carries " << got.tags[i] << " instead of " << w.m.tags[i] << " in " << w.m);
    }
    PBT_CHECK(q.id == 7 && q.on_node_plane.split == &node && q.on_node_plane.pos_side, what << ": id or node plane");
  };
  same(ch.first, ne, "partitioning polygon after split (negative child)");
  same(ch.second, pe, "partitioning polygon after split (positive child)");
  same(kept, e, "copy of a partitioning polygon");
  Poly moved(std::move(ch.first));
  same(moved, ne, "moved partitioning polygon");
  // Over polygons of another node.
  static const HalfSpace3 other_node(1, 0, 0, 5);
  kept.id = 3;
  kept.on_node_plane = walnut::SplitSide{&other_node, false};
  kept = std::move(moved);
  same(kept, ne, "move-assigned partitioning polygon");
  ch.second.id = 2;
  ch.second.on_node_plane = walnut::SplitSide{&other_node, false};
  ch.second = kept;
  same(ch.second, ne, "assigned partitioning polygon");
}

using Pool = std::vector<std::unique_ptr<Entry>>;

void Run(pbt::Src& s, pbt::Ctx& c) {
  Pool pool;
  long next_id = 0;
  RepStyle st = GenRepStyle(s);
  size_t start = 1 + s.draw(2);
  for (size_t k = 0; k < start; ++k) {
    Loop l = GenConvex(s, 10, s.chance(1, 3));
    std::unique_ptr<Entry> e(new Entry);
    e->t = MakePoly<TagPoly>(s, l, st);
    SetTags(e->t, next_id);
    next_id += 100;
    for (size_t i = 0; i < l.size(); ++i) static_cast<Tag&>(e->t.edge(i)).sticky = s.chance(1, 10);
    e->b = BoxPoly(static_cast<const Plain&>(e->t));
    e->x = MBox(e->t);
    e->m = PieceOf(e->t);
    PBT_CHECK(e->m.l == l, "constructed polygon has vertices " << e->m.l);
    e->plane = ToPl(e->t.plane());
    e->drop = e->t.drop_dimension();
    CheckEntry(*e, "construction");
    pool.push_back(std::move(e));
    c << "polygon " << k << ": " << l << "\n";
  }
  int splits = 0, merges = 0, declined = 0, edge_splits = 0, inverts = 0, changes = 0;
  for (size_t step = 0; s.more(step, 1, 24); ++step) {
    size_t at = s.draw(pool.size());
    Entry& e = *pool[at];
    size_t n = e.m.l.size();
    switch (s.draw(12)) {
      case 0: case 1: {  // Split.
        if (splits >= 7 || pool.size() >= 10) break;
        Pl h = SplitPlane(s, e.m.l);
        int nn = 0, np = 0;
        for (const P3& v : e.m.l) { nn += h.Side(v) < 0; np += h.Side(v) > 0; }
        if (!nn || !np) break;
        ++splits;
        c << "split " << at << " by " << h << "\n";
        HalfSpace3 hs = Plane(h.n, h.d, st.scales ? GenScale(s, false) : Z(1));
        auto want = ModelSplit(e.m, h);
        std::unique_ptr<Entry> pe(new Entry), ne(new Entry);
        for (auto* o : {pe.get(), ne.get()}) { o->plane = e.plane; o->drop = e.drop; }
        ne->m = want.first;
        pe->m = want.second;
        CheckBspSplit<BspPoly>(e, *ne, *pe, hs, step & 1);
        CheckBspSplit<BspBox>(e, *ne, *pe, hs, !(step & 1));
        ConvexPolygonSplitInfo ti = e.t.GetSplitInfo(hs), bi = e.b.GetSplitInfo(hs), xi = e.x.GetSplitInfo(hs);
        if (s.flip()) {
          auto tc = e.t.CreateSplitChildren(ti);
          ne->t = tc.first; pe->t = tc.second;
          auto bc = e.b.CreateSplitChildren(bi);
          ne->b = bc.first; pe->b = bc.second;
          auto xc = e.x.CreateSplitChildren(xi);
          ne->x = xc.first; pe->x = xc.second;
          CheckEntry(e, "splitting a constant polygon");
        } else {
          auto tc = TagPoly::CreateSplitChildren(std::move(e.t).GetRValueKey(), std::move(ti));
          ne->t = std::move(tc.first); pe->t = std::move(tc.second);
          auto bc = std::move(e.b).CreateSplitChildren(std::move(bi));
          ne->b = std::move(bc.first); pe->b = std::move(bc.second);
          auto xc = std::move(e.x).CreateSplitChildren(std::move(xi));
          ne->x = std::move(xc.first); pe->x = std::move(xc.second);
        }
        CheckEntry(*ne, "split (negative child)");
        CheckEntry(*pe, "split (positive child)");
        pool[at] = std::move(ne);
        pool.push_back(std::move(pe));
        ++changes;
        break;
      }
      case 2: case 3: case 4: {  // Merge two polygons that share an edge.
        struct Cand { size_t other, i, j; };
        std::vector<Cand> cs;
        for (size_t o = 0; o < pool.size(); ++o) {
          if (o == at) continue;
          const Loop& b = pool[o]->m.l;
          for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < b.size(); ++j) {
            if (e.m.l[i] == b[(j + 1) % b.size()] && e.m.l[(i + 1) % n] == b[j]) cs.push_back({o, i, j});
          }
        }
        if (cs.empty()) break;
        Cand cd = s.pick(cs);
        Entry& o = *pool[cd.other];
        P3 dir = e.m.l[(cd.i + 1) % n] - e.m.l[cd.i];
        std::vector<int> dims;
        for (int d = 0; d < 3; ++d) if (dir[d] != 0) dims.push_back(d);
        int dim = s.pick(dims);
        c << "merge " << at << " edge " << cd.i << " with " << cd.other << " edge " << cd.j << "\n";
        Piece want = e.m;
        bool yes = ModelMerge(want, cd.i, o.m, cd.j);
        bool rt = e.t.TryMergePolygon(dim, cd.i, o.t, cd.j);
        bool rb = e.b.TryMergePolygon(dim, cd.i, o.b, cd.j);
        bool rx = e.x.TryMergePolygon(dim, cd.i, o.x, cd.j);
        PBT_CHECK(rt == yes && rb == yes && rx == yes, "merge answered " << rt << rb << rx << ", the union is " << (yes ? "" : "not ") << "convex");
        if (yes) {
          Align(want, PieceOf(e.t), "merge");
          e.m = want;
          CheckEntry(e, "merge");
          PBT_CHECK(o.t.vertex_count() == 0 && o.b.vertex_count() == 0 && o.x.vertex_count() == 0, "merged polygon keeps its edges");
          pool.erase(pool.begin() + cd.other);
          ++merges;
          ++changes;
        } else {
          CheckEntry(e, "declined merge");
          CheckEntry(o, "declined merge (other)");
          ++declined;
        }
        break;
      }
      case 5: case 6: {  // Split an edge.
        if (edge_splits >= 8) break;
        static const Q ts[5] = {Q(1, 2), Q(1, 3), Q(3, 4), Q(1, 1000003), Q(7, 11)};
        size_t i = s.draw(n);
        P3 mid = e.m.l[i] + (e.m.l[(i + 1) % n] - e.m.l[i]) * ts[s.draw(5)];
        HomoPoint3 hm = Homo(mid, st.scales ? GenScale(s, st.negative) : Z(1));
        c << "insert " << mid << " on edge " << i << " of " << at << "\n";
        e.t.SplitEdge(i, hm);
        e.x.SplitEdge(i, hm);
        e.b = BoxPoly(static_cast<const Plain&>(e.t));
        e.m.l.insert(e.m.l.begin() + i + 1, mid);
        e.m.tags.insert(e.m.tags.begin() + i + 1, Made(e.m.tags[i], Tag::kVertex));
        CheckEntry(e, "edge insertion");
        ++edge_splits;
        ++changes;
        break;
      }
      case 7: {  // Rotate or sort.
        size_t k = s.draw(n);
        if (s.flip()) {
          c << "rotate " << at << " by " << k << "\n";
          e.t.RotateEdges(k);
          e.b.RotateEdges(k);
          e.x.RotateEdges(k);
        } else {
          c << "sort " << at << "\n";
          k = std::min_element(e.m.l.begin(), e.m.l.end()) - e.m.l.begin();
          e.t.SortVertices();
          e.b.SortVertices();
          e.x.SortVertices();
        }
        std::rotate(e.m.l.begin(), e.m.l.begin() + k, e.m.l.end());
        std::rotate(e.m.tags.begin(), e.m.tags.begin() + k, e.m.tags.end());
        CheckEntry(e, "rotation");
        ++changes;
        break;
      }
      case 8: {  // Invert.
        c << "invert " << at << "\n";
        e.t.Invert();
        e.x.Invert();
        e.b = BoxPoly(static_cast<const Plain&>(e.t));
        Loop r(e.m.l.rbegin(), e.m.l.rend());
        Piece got = PieceOf(e.t);
        // Which data an inverted edge carries is not judged.
        Piece want;
        want.l = r;
        want.tags = Piece(got).tags;
        bool found = false;
        for (size_t o = 0; o < n && !found; ++o) {
          found = want.l == got.l;
          if (!found) std::rotate(want.l.begin(), want.l.begin() + 1, want.l.end());
        }
        PBT_CHECK(found, "inverted polygon has vertices " << got.l << " instead of a rotation of " << r);
        e.m = want;
        e.plane.n = -e.plane.n;
        e.plane.d = -e.plane.d;
        CheckEntry(e, "inversion");
        ++inverts;
        ++changes;
        break;
      }
      case 9: {  // Copies.
        c << "copy " << at << "\n";
        std::unique_ptr<Entry> f(new Entry{e.m, e.plane, e.drop, e.t, e.b, e.x});
        CheckEntry(*f, "copy construction");
        PBT_CHECK(f->t == e.t && f->b == e.b && f->x == e.x && f->t == e.b, "a copy differs from the original");
        switch (s.draw(3)) {
          case 0: {  // Over another polygon of the pool.
            Entry& o = *pool[s.draw(pool.size())];
            o.t = f->t; o.b = f->b; o.x = f->x;
            o.m = f->m; o.plane = f->plane; o.drop = f->drop;
            CheckEntry(o, "copy assignment");
            CheckEntry(e, "copy assignment (source)");
            break;
          }
          case 1: {  // Changing the copy leaves the original alone.
            size_t k = s.draw(n);
            f->t.RotateEdges(k); f->b.RotateEdges(k); f->x.RotateEdges(k);
            f->t.Invert(); f->x.Invert();
            CheckEntry(e, "change of a copy");
            break;
          }
          default: {  // Without edge data and back.
            ConvexPolygon<> bare(e.t);
            AABBConvexPolygon<> bare_box(e.b);
            PBT_CHECK(FromPoly(bare) == e.m.l && FromPoly(bare_box) == e.m.l, "conversion changed the vertices");
            CheckBox(bare_box, "conversion");
            CheckPoly(bare, false, "conversion");
            CheckPoly(bare_box, false, "conversion with box");
            TagPoly back(bare);
            CheckPoly(back, false, "conversion back");
            PBT_CHECK(FromPoly(back) == e.m.l, "conversion back changed the vertices");
            PBT_CHECK(bare == bare_box, "converted polygons differ");
            // Over another polygon.
            AABBConvexPolygon<> over(pool[s.draw(pool.size())]->b);
            over = e.b;
            CheckPoly(over, false, "assignment from another type");
            CheckBox(over, "assignment from another type");
            PBT_CHECK(FromPoly(over) == e.m.l && over == bare_box, "assignment from another type gives " << FromPoly(over));
            break;
          }
        }
        break;
      }
      case 10: {  // Moves.
        c << "move " << at << "\n";
        std::unique_ptr<Entry> f(new Entry{e.m, e.plane, e.drop, std::move(e.t), std::move(e.b), std::move(e.x)});
        CheckEntry(*f, "move construction");
        if (s.flip()) {
          e.t = std::move(f->t);
          e.b = std::move(f->b);
          e.x = std::move(f->x);
          CheckEntry(e, "move assignment");
        } else {
          pool[at] = std::move(f);
        }
        ++changes;
        break;
      }
      default: {  // Edge data and plane form.
        size_t i = s.draw(n);
        bool sticky = s.flip();
        long id = next_id++;
        c << "set data of edge " << i << " of " << at << "\n";
        static_cast<Tag&>(e.t.edge(i)).sticky = sticky;
        static_cast<Tag&>(e.t.edge(i)).id = id;
        static_cast<Tag&>(e.x.edge(i)).sticky = sticky;
        static_cast<Tag&>(e.x.edge(i)).id = id;
        e.b = BoxPoly(static_cast<const Plain&>(e.t));
        e.m.tags[i].sticky = sticky;
        e.m.tags[i].id = id;
        e.t.ReducePlaneNormal();
        e.x.ReducePlaneNormal();
        CheckEntry(e, "change of edge data");
        break;
      }
    }
  }
  for (auto& e : pool) CheckEntry(*e, "the whole history");
  if (splits && changes >= 3) c.nontrivial();
  if (merges) c.label("merged");
  if (merges && edge_splits) c.label("merged with inserted vertices");
  if (declined) c.label("declined merge");
  if (inverts) c.label("inverted");
  if (splits >= 3) c.label("3 or more splits");
}

}  // namespace

PBT_MAIN((pbt::Property{"P02", "at least one split and three changes of polygons", Run, 20}))
