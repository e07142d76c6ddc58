// C06: histories of moving, connecting, merging and editing linked facets.
#include <algorithm>
#include <memory>
#include "linked.h"

using namespace gen;
using walnut::AABBConvexPolygon;
using walnut::ConnectedPolygon;
using walnut::ConvexPolygon;
using walnut::Deed;

namespace {

using LinkPoly = ConnectedPolygon<ConvexPolygon<>, void, Tag>;
using LinkBoxPoly = ConnectedPolygon<AABBConvexPolygon<>, void, Tag>;

template <class Poly> struct History {
  using EdgeRep = typename Poly::EdgeRep;
  pbt::Src& s;
  pbt::Ctx& c;
  Linked<Poly> w;
  std::map<long, Deed<EdgeRep>> deeds;
  std::set<LineKey> connected;
  int moves = 0, merges = 0, joins = 0, splits = 0, lines = 0;

  History(pbt::Src& s, pbt::Ctx& c) : s(s), c(c) {}

  void Check(const std::string& what, bool geometry) {
    w.Check(what.c_str(), geometry);
    for (auto& d : deeds) {
      auto a = w.at.find(d.first);
      if (a == w.at.end()) {
        PBT_CHECK(d.second.empty(), what << ": deed of the removed edge #" << d.first << " is not empty");
      } else {
        PBT_CHECK(!d.second.empty(), what << ": deed of edge #" << d.first << " lost its edge");
        PBT_CHECK(d.second.get() == &w.edge(a->second), what << ": deed of edge #" << d.first << " does not follow it");
      }
    }
  }
  std::vector<Poly>& Store() { return w.store[s.draw(w.store.size())]; }
  Poly* Any() {
    std::vector<Poly*> ps;
    for (auto& v : w.store) for (Poly& p : v) if (p.vertex_count()) ps.push_back(&p);
    return ps.empty() ? nullptr : s.pick(ps);
  }

  void Connect() {
    // A line on which nothing is linked yet.
    std::vector<Poly*> ps;
    std::set<LineKey> keys;
    for (auto& v : w.store) for (Poly& p : v) {
      size_t n = p.vertex_count();
      if (n) ps.push_back(&p);
      for (size_t i = 0; i < n; ++i) {
        LineKey k(ToP(p.vertex(i)), ToP(p.vertex((i + 1) % n)));
        if (!connected.count(k)) keys.insert(k);
      }
    }
    if (keys.empty()) return;
    auto it = keys.begin();
    std::advance(it, s.draw(keys.size()));
    LineKey key = *it;
    connected.insert(key);
    auto before = w.link;
    auto faces = w.faces;
    auto face_of = w.face_of;
    std::set<long> on;  // edges on the line before
    for (auto& f : faces) for (size_t k = 0; k < f.second.l.size(); ++k) {
      LineKey e(f.second.l[k], f.second.l[(k + 1) % f.second.l.size()]);
      if (!(e < key) && !(key < e)) on.insert(f.second.tags[k].id);
    }
    c << "connect the line of " << key.d << " (" << on.size() << " edges)\n";
    long fresh = w.next_id;
    ConnectOn(s, ps, key);
    w.Adopt([&](const Poly& p) {
      for (size_t k = 0; k < p.vertex_count(); ++k) if (on.count(static_cast<const Tag&>(p.edge(k)).id)) return true;
      return false;
    });
    for (auto& l : before) {
      PBT_CHECK(w.link.count(l.first) && w.link[l.first] == l.second, "connecting a line changed the link of edge #" << l.first);
    }
    for (auto& l : w.link) {
      PBT_CHECK(before.count(l.first) || on.count(l.first) || l.first >= fresh, "an edge off the line was linked");
      PBT_CHECK(w.link.count(l.second) && w.link[l.second] == l.first, "link is not mutual");
    }
    PBT_CHECK(w.faces.size() == faces.size(), "connecting a line changed the number of facets");
    for (auto& f : w.faces) {
      // Without the inserted vertices the facets are as before.
      Piece m, was;
      for (size_t k = 0; k < f.second.l.size(); ++k) {
        if (f.second.tags[k].id >= fresh) continue;
        m.l.push_back(f.second.l[k]);
        m.tags.push_back(f.second.tags[k]);
      }
      PBT_CHECK(!m.l.empty(), "facet without old edges");
      was = faces[face_of[m.tags[0].id]];
      PBT_CHECK(SameCycle(m, was), "connecting a line turned " << was << " into " << m);
      for (size_t k = 0; k < f.second.l.size(); ++k) {
        if (f.second.tags[k].id < fresh) continue;
        size_t b = k;
        while (f.second.tags[b].id >= fresh) b = (b + f.second.l.size() - 1) % f.second.l.size();
        PBT_CHECK(on.count(f.second.tags[b].id), "vertex inserted off the line");
        ++splits;
      }
    }
    ++lines;
    Check("after connecting a line", true);
  }

  void Step() {
    switch (s.draw(16)) {
      case 0: case 1: {  // To another container.
        std::vector<Poly>& from = Store();
        if (from.empty()) break;
        size_t i = s.draw(from.size()), k = s.draw(w.store.size());
        c << "move a facet to container " << k << "\n";
        if (&w.store[k] == &from) {
          Poly t(std::move(from[i]));
          from.push_back(std::move(t));
        } else if (s.flip()) {
          w.store[k].push_back(std::move(from[i]));
        } else {
          w.store[k].insert(w.store[k].begin() + s.draw(w.store[k].size() + 1), std::move(from[i]));
        }
        ++moves;
        break;
      }
      case 2: {
        std::vector<Poly>& v = Store();
        c << "erase emptied facets\n";
        v.erase(std::remove_if(v.begin(), v.end(), [](const Poly& p) { return p.vertex_count() == 0; }), v.end());
        ++moves;
        break;
      }
      case 3: {
        Poly *a = Any(), *b = Any();
        if (!a || a == b) break;
        c << "swap\n";
        std::swap(*a, *b);
        ++moves;
        break;
      }
      case 4: {
        std::vector<Poly>& v = Store();
        c << "reallocate\n";
        if (s.flip()) v.reserve(v.capacity() * 2 + 1); else v.shrink_to_fit();
        ++moves;
        break;
      }
      case 5: {
        std::vector<Poly>& v = Store();
        if (v.empty()) break;
        c << "reorder\n";
        switch (s.draw(3)) {
          case 0: std::rotate(v.begin(), v.begin() + s.draw(v.size()), v.end()); break;
          case 1: std::reverse(v.begin(), v.end()); break;
          default: std::sort(v.begin(), v.end(), [](const Poly& a, const Poly& b) { return a.vertex_count() < b.vertex_count(); }); break;
        }
        ++moves;
        break;
      }
      case 6: {
        std::vector<Poly>& v = Store();
        c << "move a container\n";
        std::vector<Poly> t(std::move(v));
        if (s.flip()) {
          v = std::move(t);
        } else {
          v.clear();
          for (Poly& p : t) v.push_back(std::move(p));
        }
        ++moves;
        break;
      }
      case 7: {
        Poly* p = Any();
        if (!p) break;
        c << "through the heap\n";
        std::unique_ptr<Poly> t(new Poly(std::move(*p)));
        std::unique_ptr<Poly> u(new Poly);
        *u = std::move(*t);
        t.reset();
        *p = std::move(*u);
        ++moves;
        break;
      }
      case 8: {
        Poly* p = Any();
        if (!p) break;
        c << "sort vertices\n";
        p->SortVertices();
        PBT_CHECK(ToP(p->vertex(0)) == *[&] { static Loop l; l = FromPoly(*p); return std::min_element(l.begin(), l.end()); }(),
                  "sorted polygon starts at " << ToP(p->vertex(0)));
        ++moves;
        break;
      }
      case 9: {
        // Reading from a copy that goes away again.
        Poly* p = Any();
        if (!p) break;
        c << "copy\n";
        Poly t(*p);
        CheckPoly(t, false, "copy");
        PBT_CHECK(SameCycle(PieceOf(t), PieceOf(*p)), "copy differs");
        for (size_t k = 0; k < t.vertex_count(); ++k) PBT_CHECK(&t.edge(k).polygon() == &t, "edge of the copy points to another polygon");
        break;
      }
      case 10: {
        // Insert a vertex on an edge that is not linked.
        std::vector<long> free;
        for (auto& a : w.at) if (!w.link.count(a.first)) free.push_back(a.first);
        if (free.empty()) break;
        long id = s.pick(free);
        auto at = w.at[id];
        Poly& p = w.poly(at);
        static const Q ts[4] = {Q(1, 2), Q(1, 3), Q(3, 4), Q(1, 1000003)};
        P3 a = ToP(p.vertex(at.edge)), b = ToP(p.vertex((at.edge + 1) % p.vertex_count()));
        P3 m = a + (b - a) * ts[s.draw(4)];
        c << "insert " << m << " on #" << id << "\n";
        p.SplitEdge(at.edge, Homo(m, Z(1)));
        Piece& f = w.faces[w.face_of[id]];
        Tag t = Made(f.tags[at.edge], Tag::kVertex);
        PBT_CHECK(static_cast<Tag&>(p.edge(at.edge + 1)) == t, "inserted edge carries other data");
        t.id = w.next_id++;
        static_cast<Tag&>(p.edge(at.edge + 1)).id = t.id;
        f.l.insert(f.l.begin() + at.edge + 1, m);
        f.tags.insert(f.tags.begin() + at.edge + 1, t);
        w.face_of[t.id] = w.face_of[id];
        break;
      }
      case 11: {
        // Deeds.
        if (w.at.empty()) break;
        auto it = w.at.begin();
        std::advance(it, s.draw(w.at.size()));
        long id = it->first;
        if (deeds.count(id)) {
          Deed<EdgeRep> sub = deeds[id].Lend();
          c << "borrow and return the deed of #" << id << "\n";
          PBT_CHECK(sub.get() == &w.edge(it->second), "borrowed deed has another edge");
        } else {
          c << "take the deed of #" << id << "\n";
          deeds.emplace(id, &w.edge(it->second));
        }
        break;
      }
      case 12: Connect(); return;
      default: {
        auto pairs = w.LinkedPairs(!s.chance(1, 10));
        if (pairs.empty()) { Connect(); return; }
        auto pr = s.pick(pairs);
        c << "merge along #" << pr.first << " #" << pr.second << "\n";
        if (w.Merge(s, pr.first, pr.second)) ++merges;
        break;
      }
    }
    Check("after the last step", false);
  }
};

template <class Poly> void Go(pbt::Src& s, pbt::Ctx& c) {
  bool closed;
  Mesh m = GenPatched(s, &closed);
  if (s.chance(1, 3)) {
    for (size_t k = 0; s.more(k, 0, 3) && m.size() > 1; ++k) { m.erase(m.begin() + s.draw(m.size())); closed = false; }
  }
  for (const Loop& l : m) c << l << "\n";
  RepStyle st = GenRepStyle(s);
  History<Poly> h(s, c);
  h.w.store.resize(2);
  for (const Loop& l : m) h.w.store[s.chance(1, 4)].push_back(MakePoly<Poly>(s, l, st));
  h.w.Adopt([](const Poly&) { return true; });
  h.Check("at the start", true);
  for (size_t k = 0; s.more(k, 0, 12); ++k) h.Connect();
  for (size_t k = 0; s.more(k, 1, 40); ++k) h.Step();
  h.Check("at the end", true);
  if (h.moves >= 2 && h.lines) c.nontrivial();
  if (h.merges) c.label("merges");
  if (h.w.joints) c.label("linked joint removed");
  if (h.splits) c.label("edges split while connecting");
  if (!h.deeds.empty()) c.label("deeds");
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  if (s.flip()) Go<LinkPoly>(s, c); else Go<LinkBoxPoly>(s, c);
}

}  // namespace

PBT_MAIN((pbt::Property{"C06", "a line was connected and facets were moved at least twice", Run, 20}))
