// C02: edges on shared lines are paired into solid wedges. Facets are placed
// around lines of a common plane, and every stretch between two end points is
// compared with the exact angular order of the facets there.
#include "linked.h"
#include "walnut/aabb_convex_polygon.h"

using namespace gen;
using walnut::AABBConvexPolygon;
using walnut::ConnectedPolygon;
using walnut::ConvexPolygon;
using walnut::Deed;
using walnut::EdgeLineConnector;

namespace {

// An edge that was given to the connector.
struct Given {
  P3 from, to;   // direction of the edge
  P3 f;          // into the facet, any vector of the half plane
  size_t poly;
  int line;
};


template <class Poly>
void Check(pbt::Src& s, pbt::Ctx& c, const std::vector<Loop>& loops, const std::vector<Given>& given,
           const std::vector<P3>& dirs, const std::vector<P3>& origins, const P3& plane_normal, const RepStyle& st) {
  using EdgeRep = typename Poly::EdgeRep;
  std::vector<Poly> polys;
  polys.reserve(loops.size());
  for (const Loop& l : loops) {
    Loop r = l;
    if (st.rotate) std::rotate(r.begin(), r.begin() + s.draw(r.size()), r.end());
    polys.push_back(MakePoly<Poly>(s, r, st));
  }
  std::vector<EdgeRep*> on;
  for (const Given& g : given) {
    Poly& p = polys[g.poly];
    size_t k = 0;
    while (ToP(p.vertex(k)) != g.from) ++k;
    on.push_back(&p.edge(k));
  }
  s.shuffle(on);
  std::vector<Deed<EdgeRep>> deeds;
  for (EdgeRep* e : on) deeds.emplace_back(e);
  std::vector<int> drops;
  for (int k = 0; k < 3; ++k) if (plane_normal[k] != 0) drops.push_back(k);
  int errors = 0;
  std::string first;
  EdgeLineConnector<EdgeRep> connector;
  connector.ConnectUnsorted(deeds.begin(), deeds.end(), drops[s.draw(drops.size())],
                            [&](const std::string& m) { if (!errors++) first = m; });
  if (s.draw(8) == 7 && errors == 0) {
    // The same again, on edges that are linked already.
    for (Deed<EdgeRep>& d : deeds) PBT_CHECK(!d.empty(), "deed lost its edge");
    deeds.clear();
    on.clear();
    for (const Given& g : given) {
      Poly& p = polys[g.poly];
      size_t k = 0;
      while (ToP(p.vertex(k)) != g.from) ++k;
      for (; ToP(p.vertex(k % p.vertex_count())) != g.to; ++k) on.push_back(&p.edge(k % p.vertex_count()));
    }
    s.shuffle(on);
    for (EdgeRep* e : on) deeds.emplace_back(e);
    errors = 0;
    connector.ConnectUnsorted(deeds.begin(), deeds.end(), drops[s.draw(drops.size())],
                              [&](const std::string& m) { if (!errors++) first = m; });
    c.label("connected again");
  }
  for (size_t i = 0; i < deeds.size(); ++i) {
    PBT_CHECK(!deeds[i].empty(), "deed " << i << " lost its edge");
  }

  // Polygons stay valid and links are mutual and run along the same stretch.
  CheckConnected(polys, false, "after connecting", false);
  for (const Poly& p : polys) CheckBoxIfAny(p, "box after connecting", 0);
  for (size_t i = 0; i < polys.size(); ++i) {
    // Only vertices on the given edges are new.
    size_t at = 0;
    Loop l = FromPoly(polys[i]);
    while (l[at] != loops[i][0]) PBT_CHECK(++at < l.size(), "vertex of facet " << loops[i] << " is gone");
    std::rotate(l.begin(), l.begin() + at, l.end());
    size_t k = 0;
    for (const P3& v : l) {
      if (k < loops[i].size() && v == loops[i][k]) { ++k; continue; }
      const P3& a = loops[i][k - 1];
      const P3& b = loops[i][k % loops[i].size()];
      bool ok = false;
      for (const Given& g : given) ok = ok || (g.poly == i && g.from == a && g.to == b);
      PBT_CHECK(ok, "vertex " << v << " was inserted in an edge that was not to be connected");
    }
    PBT_CHECK(k == loops[i].size(), "facet lost vertices");
  }

  // Pieces of the given edges.
  struct Part { P3 from, to; size_t given; long partner; Q lo, hi; };
  std::vector<Part> parts;
  std::map<const void*, size_t> index;
  for (size_t gi = 0; gi < given.size(); ++gi) {
    const Given& g = given[gi];
    const Poly& p = polys[g.poly];
    size_t n = p.vertex_count();
    size_t k = 0;
    while (ToP(p.vertex(k)) != g.from) ++k;
    while (true) {
      Part q;
      q.from = ToP(p.vertex(k % n));
      q.to = ToP(p.vertex((k + 1) % n));
      q.given = gi;
      index[static_cast<const void*>(&p.edge(k % n))] = parts.size();
      const P3& d = dirs[g.line];
      Q a = Dot(d, q.from - origins[g.line]), b = Dot(d, q.to - origins[g.line]);
      q.lo = a < b ? a : b;
      q.hi = a < b ? b : a;
      parts.push_back(q);
      if (q.to == g.to) break;
      PBT_CHECK(++k < 3 * n, "the end of edge " << g.from << " -> " << g.to << " is gone");
    }
  }
  for (size_t i = 0; i < polys.size(); ++i) {
    for (size_t k = 0; k < polys[i].vertex_count(); ++k) {
      const auto& e = polys[i].edge(k);
      auto it = index.find(static_cast<const void*>(&e));
      if (it == index.end()) {
        PBT_CHECK(e.partner() == nullptr, "an edge that was not given is linked");
        continue;
      }
      parts[it->second].partner = -1;
      if (e.partner() != nullptr) {
        // The partner may be known under the address of its final edge type.
        const auto& q = e.partner()->polygon().edge(e.partner()->edge_index());
        auto jt = index.find(static_cast<const void*>(&q));
        PBT_CHECK(jt != index.end(), "linked to an edge that was not given");
        parts[it->second].partner = static_cast<long>(jt->second);
      }
    }
  }

  // Expected pairing of every stretch of every line.
  // Facets alternate around the lines of a proper solid surface. Where the
  // edges do not even cancel in number the surface is open, and an error is
  // due; what lies between (overlapping solids) may be reported or not.
  bool error_due = false, error_allowed = false, dup = false;
  std::vector<bool> open(dirs.size(), false);  // lines on which the facets do not alternate
  std::map<std::pair<size_t, Q>, long> want;  // (given edge, low end) -> partner
  size_t stretches = 0, max_active = 0;
  std::vector<std::vector<Q>> cuts(given.size());  // where a given edge has to be split
  for (size_t li = 0; li < dirs.size(); ++li) {
    const P3& d = dirs[li];
    std::set<Q> ends;
    auto at = [&](const P3& p) { return Dot(d, p - origins[li]); };
    for (const Given& g : given) if (g.line == (int)li) { ends.insert(at(g.from)); ends.insert(at(g.to)); }
    if (ends.empty()) continue;
    P3 ref;
    for (const Given& g : given) if (g.line == (int)li) { ref = g.f; break; }
    P3 u = Cross(Cross(d, ref), d), w = Cross(d, u);  // u, w, d right-handed
    auto angle = [&](const P3& f, Q* x, Q* y) { *x = Dot(f, u); *y = Dot(f, w); };
    auto less = [&](const P3& f, const P3& g) {
      Q fx, fy, gx, gy;
      angle(f, &fx, &fy);
      angle(g, &gx, &gy);
      // u and w have different lengths; only signs and ratios per axis matter.
      bool fh = fy < 0 || (fy == 0 && fx < 0), gh = gy < 0 || (gy == 0 && gx < 0);
      if (fh != gh) return fh < gh;
      return fx * gy - fy * gx > 0;
    };
    std::vector<Q> es(ends.begin(), ends.end());
    std::map<size_t, long> prev;
    for (size_t k = 0; k + 1 < es.size(); ++k) {
      std::vector<size_t> act;
      for (size_t gi = 0; gi < given.size(); ++gi) {
        const Given& g = given[gi];
        if (g.line != (int)li) continue;
        Q a = at(g.from), b = at(g.to);
        if (std::min(a, b) <= es[k] && es[k + 1] <= std::max(a, b)) act.push_back(gi);
      }
      auto pos = [&](size_t gi) { return at(given[gi].from) < at(given[gi].to); };
      std::stable_sort(act.begin(), act.end(), [&](size_t a, size_t b) {
        if (less(given[a].f, given[b].f)) return true;
        if (less(given[b].f, given[a].f)) return false;
        return pos(a) && !pos(b);
      });
      size_t n = act.size();
      max_active = std::max(max_active, n);
      if (n) ++stretches;
      for (size_t i = 0; i + 1 < n; ++i) {
        bool same = !less(given[act[i]].f, given[act[i + 1]].f) && pos(act[i]) == pos(act[i + 1]);
        if (same) dup = error_allowed = open[li] = true;
      }
      std::map<size_t, long> now;
      size_t ascending = std::count_if(act.begin(), act.end(), pos);
      if (2 * ascending != n) error_due = true;
      for (size_t i = 0; i < n; ++i) {
        size_t a = act[i], b = act[(i + 1) % n];
        // The solid is counter-clockwise from a facet whose edge runs down.
        if (!pos(a) && pos(b)) { now[a] = (long)b; now[b] = (long)a; }
        if (pos(a) == pos(b)) error_allowed = open[li] = true;
      }
      for (size_t i = 0; i < n; ++i) {
        if (!now.count(act[i])) now[act[i]] = -1;
        want[{act[i], es[k]}] = now[act[i]];
        auto it = prev.find(act[i]);
        if (it != prev.end() && it->second != now[act[i]]) cuts[act[i]].push_back(es[k]);
      }
      prev = now;
    }
  }
  PBT_CHECK(errors == 0 || error_allowed, "facets alternate, but an error was reported: " << first.substr(0, 300));
  PBT_CHECK(errors > 0 || !error_due, "no error reported for an open surface");
  if (error_due) c.label("open");
  else if (error_allowed) c.label("overlapping");
  if (dup) { c.label("duplicate edges"); return; }
  if (max_active >= 2) c.nontrivial();
  if (max_active >= 4) c.label("4 or more facets at a stretch");
  if (stretches >= 4) c.label("4 or more stretches");
  for (const Part& q : parts) {
    // All stretches inside of the part.
    auto it = want.find({q.given, q.lo});
    PBT_CHECK(it != want.end(), "edge split at " << q.lo << " where no edge ends");
    for (; it != want.end() && it->first.first == q.given && it->first.second < q.hi; ++it) {
      long partner = q.partner < 0 ? -1 : (long)parts[q.partner].given;
      const Given& g = given[q.given];
      // Wedges are only defined where the facets alternate.
      if (open[g.line]) continue;
      PBT_CHECK(partner == it->second, "facet " << loops[g.poly] << " along " << q.from << " -> " << q.to << " is linked to "
                << (partner < 0 ? std::string("nothing") : "facet " + std::to_string(given[partner].poly)) << " instead of "
                << (it->second < 0 ? std::string("nothing") : "facet " + std::to_string(given[it->second].poly)));
    }
  }
  for (size_t gi = 0; gi < given.size(); ++gi) {
    std::set<Q> got, exp(cuts[gi].begin(), cuts[gi].end());
    const Given& g = given[gi];
    if (open[g.line]) continue;
    Q end = std::min(Dot(dirs[g.line], g.from - origins[g.line]), Dot(dirs[g.line], g.to - origins[g.line]));
    for (const Part& q : parts) if (q.given == gi && q.lo != end) got.insert(q.lo);
    PBT_CHECK(got == exp, "edge " << g.from << " -> " << g.to << " was split in " << got.size() + 1 << " parts instead of " << exp.size() + 1);
    if (!exp.empty()) c.label("edge split");
  }
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  // Lines in the plane z = 0 of a model space that is mapped to real space.
  Affine map = GenAffine(s, s.flip());
  size_t line_count = 1 + (s.chance(1, 3) ? 1 + s.draw(3) : 0);
  std::vector<P3> mdirs, morigins;
  std::set<LineKey> used;
  for (size_t k = 0; k < line_count; ++k) {
    P3 d = IP(s.range(-2, 2), s.range(-2, 2), 0);
    if (d.IsZero()) d = IP(1, 0, 0);
    P3 o = IP(s.range(-3, 3), s.range(-3, 3), 0);
    if (!used.insert(LineKey(o, o + d)).second) continue;
    mdirs.push_back(d);
    morigins.push_back(o);
  }
  std::vector<Loop> loops;
  std::vector<Given> given;
  static const long ring[16][2] = {{1, 0}, {2, 1}, {1, 1}, {1, 2}, {0, 1}, {-1, 2}, {-1, 1}, {-2, 1},
                                   {-1, 0}, {-2, -1}, {-1, -1}, {-1, -2}, {0, -1}, {1, -2}, {1, -1}, {2, -1}};
  for (size_t li = 0; li < mdirs.size(); ++li) {
    P3 d = mdirs[li];
    P3 side = IP(-d[1].get_num().get_si(), d[0].get_num().get_si(), 0);
    // Facets (angle, polarity) on stretches between breaks.
    size_t breaks = 2 + (s.flip() ? s.draw(4) : 0);
    std::vector<Q> z{Q(s.range(-4, 4))};
    for (size_t k = 1; k < breaks; ++k) z.push_back(z.back() + (s.flip() ? Q(1 + (long)s.draw(3)) : Q(1, 1 + (long)s.draw(7))));
    std::map<std::pair<int, bool>, size_t> open;  // facets that continue
    struct Span { int angle; bool pos; Q lo, hi; };
    std::vector<Span> spans;
    std::set<std::pair<int, bool>> state;
    for (size_t k = 0; k < breaks; ++k) {
      std::set<std::pair<int, bool>> next;
      if (k + 1 < breaks) {
        if (k > 0 && s.chance(1, 3)) {
          next = state;
        } else if (s.chance(1, 6)) {
          // Nothing here.
        } else {
          // Alternating: solid wedges from a descending to an ascending edge.
          std::vector<int> a;
          size_t wedges = 1 + (s.draw(10) == 9 ? s.draw(8) : s.draw(3));
          for (size_t w = 0; w < 2 * wedges; ++w) a.push_back(s.draw(16));
          std::sort(a.begin(), a.end());
          size_t rot = s.draw(2);
          for (size_t w = 0; w < a.size(); ++w) next.insert({a[w], ((w + rot) & 1) != 0});
        }
        if (s.chance(1, 30)) {
          // Anything.
          int a = s.draw(16);
          next.insert({a, s.flip()});
        }
        if (s.chance(1, 30) && !next.empty()) {
          auto it = next.begin();
          std::advance(it, s.draw(next.size()));
          next.erase(it);
        }
      }
      // Facets may end and start again at a break.
      std::set<std::pair<int, bool>> ends;
      for (const auto& f : state) if (!next.count(f) || s.chance(1, 4)) ends.insert(f);
      for (const auto& f : ends) {
        spans.push_back({f.first, f.second, z[open[f]], z[k]});
        open.erase(f);
      }
      for (const auto& f : next) if (!open.count(f)) open[f] = k;
      state = next;
    }
    if (s.chance(1, 25) && !spans.empty()) spans.push_back(s.pick(spans));
    for (const Span& sp : spans) {
      P3 f = side * Q(ring[sp.angle][0]) + IP(0, 0, 1) * Q(ring[sp.angle][1]);
      P3 a = morigins[li] + d * sp.lo, b = morigins[li] + d * sp.hi;
      // Far side of the facet: one or more points.
      Loop far;
      switch (s.draw(3)) {
        case 0: far = {a + (b - a) * Q(s.range(-2, 3)) + f}; break;
        case 1: far = {b + f, a + f}; break;
        default: far = {b + f * Q(1, 2), a + (b - a) * Q(1, 2) + f, a + f * Q(1, 2)}; break;
      }
      Loop l{a, b};
      l.insert(l.end(), far.begin(), far.end());
      std::vector<size_t> on{0};
      if (s.chance(1, 5)) {
        l.insert(l.begin() + 1, a + (b - a) * Q(1, 3));
        on.push_back(1);
      }
      size_t last = on.size();  // vertex b
      // The facet as built runs along d; an edge that runs the other way
      // belongs to the reversed facet.
      bool reverse = !sp.pos;
      Loop r;
      for (const P3& p : l) r.push_back(map(p));
      std::vector<std::pair<P3, P3>> es;
      for (size_t k = 0; k < last; ++k) es.push_back({r[k], r[k + 1]});
      if (reverse) {
        std::reverse(r.begin(), r.end());
        for (auto& e : es) std::swap(e.first, e.second);
      }
      for (auto& e : es) {
        Given g;
        g.from = e.first;
        g.to = e.second;
        g.f = map(f) - map(IP(0, 0, 0));
        g.poly = loops.size();
        g.line = (int)li;
        given.push_back(g);
      }
      loops.push_back(r);
    }
  }
  if (given.empty()) throw pbt::Discard();
  std::vector<P3> dirs, origins;
  P3 zero = map(IP(0, 0, 0));
  for (size_t k = 0; k < mdirs.size(); ++k) {
    dirs.push_back(map(mdirs[k]) - zero);
    origins.push_back(map(morigins[k]));
  }
  P3 pn = Cross(map(IP(1, 0, 0)) - zero, map(IP(0, 1, 0)) - zero);
  for (const Given& g : given) c << "facet " << g.poly << " " << loops[g.poly] << " edge " << g.from << " -> " << g.to << "\n";
  if (mdirs.size() > 1) c.label("several lines");
  RepStyle st = GenRepStyle(s);
  if (s.flip()) {
    Check<ConnectedPolygon<>>(s, c, loops, given, dirs, origins, pn, st);
  } else {
    Check<ConnectedPolygon<AABBConvexPolygon<>>>(s, c, loops, given, dirs, origins, pn, st);
  }
}

}  // namespace

PBT_MAIN((pbt::Property{"C02", "at least two facets share a stretch of a line", Run, 20}))
