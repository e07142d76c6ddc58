// C01: sorted event lists of facets, the cheapest partition, and dividing
// facets and event lists by it.
#include "boolean.h"
#include "poly.h"
#include "walnut/polygon_event_point.h"
#include "walnut/m_log_n_estimator.h"
#include <cmath>
#include <deque>

using namespace gen;
using walnut::AABBConvexPolygon;
using walnut::BSPPolygon;
using walnut::ConvexPolygon;
using walnut::MLogNEstimator;
using walnut::PolygonEventPoint;
using walnut::PolygonEventPointPartition;
using walnut::PolygonMergeEvent;
using walnut::SplitSide;

namespace {

using Poly = BSPPolygon<AABBConvexPolygon<>>;

struct Item {
  Loop l;
  size_t id;
  Q lo(int d) const { Q r = l[0][d]; for (const P3& p : l) if (p[d] < r) r = p[d]; return r; }
  Q hi(int d) const { Q r = l[0][d]; for (const P3& p : l) if (p[d] > r) r = p[d]; return r; }
};

std::vector<Item> Items(const std::vector<Poly>& v) {
  std::vector<Item> r;
  for (const Poly& p : v) r.push_back({FromPoly(p), p.id});
  return r;
}
bool SameLoop(const Loop& a, const Loop& b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); ++k) {
    bool same = true;
    for (size_t i = 0; i < a.size() && same; ++i) same = a[i] == b[(i + k) % a.size()];
    if (same) return true;
  }
  return false;
}

// Position of the event on the axis, by the oracle.
Q Where(const PolygonEventPoint* ev, size_t i, const std::vector<Item>& it, int d) {
  if (ev[i].start) return it[ev[ev[i].index.partner].index.content].lo(d);
  return it[ev[i].index.content].hi(d);
}

// Every facet has one start and one end, in order, and the list is sorted.
void CheckEvents(const PolygonEventPoint* ev, const std::vector<Item>& it, int d, bool ends_first, const char* what) {
  size_t n = it.size();
  std::vector<int> starts(n), ends(n);
  Q prev;
  std::set<size_t> here;
  for (size_t i = 0; i < 2 * n; ++i) {
    size_t c;
    if (ev[i].start) {
      size_t p = ev[i].index.partner;
      PBT_CHECK(p > i && p < 2 * n, what << ": start event " << i << " has partner " << p << " of " << 2 * n);
      PBT_CHECK(!ev[p].start, what << ": partner of a start event is a start event");
      c = ev[p].index.content;
      PBT_CHECK(c < n, what << ": facet index " << c << " of " << n);
      ++starts[c];
    } else {
      c = ev[i].index.content;
      PBT_CHECK(c < n, what << ": facet index " << c << " of " << n);
      ++ends[c];
    }
    Q at = Where(ev, i, it, d);
    bool fresh = i == 0 || at != prev;
    PBT_CHECK(i == 0 || at >= prev, what << ": event " << i << " at " << at << " follows " << prev);
    PBT_CHECK(ev[i].new_location == fresh, what << ": new_location of event " << i << " is " << ev[i].new_location);
    if (fresh) here.clear();
    if (ev[i].start) here.insert(c);
    else if (!here.erase(c) && ends_first) {
      // Ends of facets that started before come first.
      PBT_CHECK(here.empty(), what << ": end event " << i << " after a start at the same location");
    }
    prev = at;
  }
  for (size_t c = 0; c < n; ++c) PBT_CHECK(starts[c] == 1 && ends[c] == 1, what << ": facet " << c << " has " << starts[c] << " starts, " << ends[c] << " ends");
}

void CheckEstimate(size_t m, size_t n, size_t e) {
  if (m > 4 * n) return;
  long double v = (long double)m * std::log2((long double)n);
  PBT_CHECK(std::fabs((long double)e - v) <= 1 + 0.033L * v, "estimate of " << m << " * log2(" << n << ") is " << e);
}

struct State {
  std::vector<Poly> polys;
  std::vector<PolygonEventPoint> ev[3];
  std::vector<SplitSide> path;
};

void CheckAngles(const std::vector<Poly>& polys, const std::vector<SplitSide>& path, const char* what) {
  for (const Poly& p : polys) {
    CheckPoly(p, false, what);
    CheckBox(p, what);
    PBT_CHECK(p.on_node_plane.split == nullptr, what << ": facet in the cell marked as on a plane");
    size_t n = p.vertex_count();
    for (size_t i = 0; i < n; ++i) {
      P3 a = ToP(p.vertex(i)), b = ToP(p.vertex((i + 1) % n));
      SplitSide first, last, vertex;
      for (const SplitSide& s : path) {
        Pl h = ToPl(*s.split);
        if (h.Side(a) != 0) continue;
        vertex = s;
        if (h.Side(b) != 0) continue;
        if (!first.split) first = s;
        last = s;
      }
      const auto& e = p.edge(i);
      PBT_CHECK(e.edge_first_coincident == first, what << ": first plane along edge " << a << " " << b << " of " << FromPoly(p));
      PBT_CHECK(e.edge_last_coincident == last, what << ": last plane along edge " << a << " " << b << " of " << FromPoly(p));
      PBT_CHECK(e.vertex_last_coincident == vertex, what << ": last plane at vertex " << a << " of " << FromPoly(p));
    }
  }
}

struct Runner {
  pbt::Src& s;
  pbt::Ctx& c;
  std::deque<HalfSpace3> planes;
  size_t splits = 0, crossing = 0, borders = 0;

  void Divide(State&& st, int depth) {
    size_t n = st.polys.size();
    if (n == 0) return;
    std::vector<Item> it = Items(st.polys);
    int dim = s.draw(3);
    PolygonEventPoint* ev = st.ev[dim].data();
    // The cheapest partition.
    size_t exclude = s.flip() ? size_t(-1) : it[s.draw(n)].id;
    size_t excluded = 0;
    for (const Item& i : it) excluded += i.id == exclude;
    PolygonEventPointPartition part = walnut::GetLowestCost(exclude, excluded, st.polys, ev);
    PBT_CHECK(part.split_index < 2 * n && !ev[part.split_index].start, "partition at event " << part.split_index << " which is not an end");
    {
      size_t neg = 0, pos = n, neg_n = 0, pos_n = n - excluded;
      size_t best = size_t(-1);
      for (size_t i = 0; i < 2 * n; ++i) {
        size_t poly = ev[i].start ? ev[ev[i].index.partner].index.content : ev[i].index.content;
        bool out = it[poly].id == exclude;
        if (ev[i].start) { ++neg; neg_n += !out; continue; }
        --pos;
        pos_n -= !out;
        MLogNEstimator e1, e2;
        size_t nc = e1.Estimate(neg, neg_n + 1), pc = e2.Estimate(pos, pos_n + 1);
        CheckEstimate(neg, neg_n + 1, nc);
        CheckEstimate(pos, pos_n + 1, pc);
        best = std::min(best, nc + pc);
        PBT_CHECK(walnut::GetSplitCost(neg, neg - neg_n, pos, pos - pos_n) == nc + pc, "GetSplitCost");
        if (i == part.split_index) {
          PBT_CHECK(part.neg_poly_count == neg && part.pos_poly_count == pos, "partition counts " << part.neg_poly_count << " " << part.pos_poly_count << ", expected " << neg << " " << pos);
          PBT_CHECK(part.neg_cost == nc && part.pos_cost == pc && part.cost == nc + pc, "partition cost " << part.cost << ", expected " << nc + pc);
        }
      }
      PBT_CHECK(part.cost == best, "partition cost " << part.cost << ", the lowest is " << best);
    }
    // Or any other, as long as something ends there.
    if (s.chance(1, 3)) {
      std::vector<size_t> ends;
      for (size_t i = 0; i < 2 * n; ++i) if (!ev[i].start) ends.push_back(i);
      size_t i = s.pick(ends);
      part = PolygonEventPointPartition();
      part.split_index = i;
      part.neg_poly_count = 0;
      part.pos_poly_count = n;
      for (size_t k = 0; k <= i; ++k) if (ev[k].start) ++part.neg_poly_count; else --part.pos_poly_count;
      c.label("arbitrary partition");
    }
    Q at = Where(ev, part.split_index, it, dim);
    size_t neg = 0, pos = 0, border = 0, both = 0;
    for (const Item& i : it) {
      if (i.lo(dim) < at) ++neg;
      if (i.hi(dim) > at) ++pos;
      if (i.lo(dim) < at && i.hi(dim) > at) ++both;
      if (i.lo(dim) == at && i.hi(dim) == at) ++border;
    }
    part.DiscountBorderPolygons(ev, n);
    PBT_CHECK(part.neg_poly_count == neg && part.pos_poly_count == pos && part.border_poly_count == border,
              "partition at " << at << " counts " << part.neg_poly_count << " below, " << part.pos_poly_count << " above, " << part.border_poly_count
              << " in the plane, expected " << neg << " " << pos << " " << border);
    PBT_CHECK(part.GetExtraPolygonCount(n) == both, "extra count " << part.GetExtraPolygonCount(n) << ", crossing facets " << both);
    PBT_CHECK(part.GetNegEventPointCount() == 2 * neg && part.GetPosEventPointCount() == 2 * pos, "child event counts");
    size_t lb = 0, le = 0;
    for (size_t i = 0; i < 2 * n; ++i) {
      Q w = Where(ev, i, it, dim);
      lb += w < at;
      le += w <= at;
    }
    PBT_CHECK(part.split_location_begin == lb && part.split_location_end == le, "events at the location: " << part.split_location_begin << ".." << part.split_location_end << ", expected " << lb << ".." << le);
    planes.push_back(part.GetSplitPlane(dim, ev, st.polys));
    const HalfSpace3* plane = &planes.back();
    {
      Pl h = ToPl(*plane);
      P3 axis;
      axis[dim] = 1;
      PBT_CHECK(SameDir(h.n, axis) && h.d == at * h.n[dim], "split plane " << h << ", expected coordinate " << dim << " = " << at);
    }
    State below, above;
    std::vector<Poly> nb, pb;
    std::vector<size_t> map(n, 12345);
    below.ev[dim].resize(2 * neg);
    part.ApplyPrimary(dim, ev, plane, st.polys, map.data(), below.ev[dim].data(), below.polys, above.polys, nb, pb);
    PBT_CHECK(st.polys.empty(), "facets left in the parent");
    above.ev[dim].assign(ev, ev + 2 * pos);
    PBT_CHECK(below.polys.size() == neg && above.polys.size() == pos && nb.size() + pb.size() == border,
              "children have " << below.polys.size() << " and " << above.polys.size() << " facets and " << nb.size() + pb.size() << " in the plane, expected " << neg << " " << pos << " " << border);
    std::vector<Item> ni = Items(below.polys), pi = Items(above.polys);
    // Where every facet went.
    std::vector<bool> nseen(neg), pseen(pos);
    auto expect = [&](const std::vector<Item>& v, std::vector<bool>& seen, size_t k, const Loop& l, size_t id, const char* side) {
      PBT_CHECK(k < v.size() && !seen[k], side << ": facet mapped to index " << k << " of " << v.size());
      seen[k] = true;
      PBT_CHECK(v[k].id == id && SameLoop(v[k].l, l), side << ": facet is " << v[k].l << " id " << v[k].id << ", expected " << l << " id " << id);
    };
    std::vector<Item> borders_below, borders_above;
    Pl h = ToPl(*plane);
    for (size_t i = 0; i < n; ++i) {
      bool b = it[i].lo(dim) < at, a = it[i].hi(dim) > at;
      if (a && b) {
        Piece p;
        p.l = it[i].l;
        p.tags.resize(p.l.size());
        auto cut = ModelSplit(p, h);
        PBT_CHECK(map[i] < both, "crossing facet mapped to " << map[i] << " of " << both);
        expect(ni, nseen, map[i], cut.first.l, it[i].id, "below");
        expect(pi, pseen, map[i], cut.second.l, it[i].id, "above");
      } else if (b) {
        expect(ni, nseen, map[i], it[i].l, it[i].id, "below");
      } else if (a) {
        PBT_CHECK(map[i] >= neg, "facet above mapped to " << map[i] << " of " << neg);
        expect(pi, pseen, map[i] - neg, it[i].l, it[i].id, "above");
      } else {
        PBT_CHECK(map[i] == size_t(-1), "facet in the plane mapped to " << map[i]);
        (AreaVec(it[i].l)[dim] < 0 ? borders_above : borders_below).push_back(it[i]);
      }
    }
    auto check_borders = [&](const std::vector<Poly>& got, const std::vector<Item>& want, bool side) {
      std::vector<Item> g = Items(got);
      PBT_CHECK(g.size() == want.size(), "facets in the plane on side " << side << ": " << g.size() << ", expected " << want.size());
      std::vector<bool> used(g.size());
      for (const Item& w : want) {
        bool found = false;
        for (size_t k = 0; k < g.size() && !found; ++k) if (!used[k] && g[k].id == w.id && SameLoop(g[k].l, w.l)) used[k] = found = true;
        PBT_CHECK(found, "facet in the plane is missing: " << w.l);
      }
      for (const Poly& p : got) {
        PBT_CHECK(p.on_node_plane == (SplitSide{plane, side}), "facet in the plane has no mark of it");
        for (size_t i = 0; i < p.vertex_count(); ++i) {
          PBT_CHECK(p.edge(i).edge_last_coincident == (SplitSide{plane, side}) && p.edge(i).vertex_last_coincident == (SplitSide{plane, side}), "edge of a facet in the plane");
        }
      }
    };
    check_borders(nb, borders_below, false);
    check_borders(pb, borders_above, true);
    below.path = above.path = st.path;
    below.path.push_back(SplitSide{plane, false});
    above.path.push_back(SplitSide{plane, true});
    CheckAngles(below.polys, below.path, "below");
    CheckAngles(above.polys, above.path, "above");
    CheckEvents(below.ev[dim].data(), ni, dim, false, "below, split dimension");
    CheckEvents(above.ev[dim].data(), pi, dim, false, "above, split dimension");
    std::vector<PolygonMergeEvent> heap;
    for (int k = 1; k < 3; ++k) {
      int d2 = (dim + k) % 3;
      below.ev[d2].resize(2 * neg);
      above.ev[d2].resize(2 * pos);
      part.ApplySecondary(d2, n, below.polys, above.polys, map.data(), st.ev[d2].data(), below.ev[d2].data(), above.ev[d2].data(), heap);
      // The documentation says that the heap is empty afterwards; its contents are unspecified storage.
      heap.clear();
      CheckEvents(below.ev[d2].data(), ni, d2, false, "below, other dimension");
      CheckEvents(above.ev[d2].data(), pi, d2, false, "above, other dimension");
    }
    ++splits;
    crossing += both;
    borders += border;
    if (depth > 0) {
      Divide(std::move(below), depth - 1);
      Divide(std::move(above), depth - 1);
    }
  }
};

Loop GenFacet(pbt::Src& s, long r) {
  switch (s.draw(5)) {
    case 0: {  // Axis-parallel rectangle.
      int d = s.draw(3);
      P3 a = IP(s.range(-r, r), s.range(-r, r), s.range(-r, r)), b = a;
      b[(d + 1) % 3] += 1 + (long)s.draw(r);
      b[(d + 2) % 3] += 1 + (long)s.draw(r);
      P3 x = a, y = a;
      x[(d + 1) % 3] = b[(d + 1) % 3];
      y[(d + 2) % 3] = b[(d + 2) % 3];
      if (s.flip()) return {a, x, b, y};
      return {a, y, b, x};
    }
    case 1: return GenConvex(s, 7, s.flip());
    default: {
      for (int k = 0; k < 20; ++k) {
        Loop l;
        for (int i = 0; i < 3; ++i) l.push_back(IP(s.range(-r, r), s.range(-r, r), s.range(-r, r)));
        if (!AreaVec(l).IsZero()) return l;
      }
      throw pbt::Discard();
    }
  }
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  if (s.chance(1, 12)) {
    // The estimator alone, with numbers of any size.
    MLogNEstimator e;
    for (int k = 0; k < 20; ++k) {
      size_t n = 1 + (s.bits64() >> (8 + s.draw(56)));
      size_t m = s.flip() ? s.draw(20) : s.bits64() >> (8 + s.draw(56));
      m = std::min(m, 4 * n);
      CheckEstimate(m, n, e.Estimate(m, n));
    }
    c.label("estimator");
    return;
  }
  std::vector<Item> it;
  size_t n = s.flip() ? s.size(1, 8) : s.size(1, 24);
  long r = s.flip() ? 2 : 6;
  Affine f = s.chance(2, 3) ? Identity() : GenAffine(s);
  for (size_t i = 0; i < n; ++i) {
    if (!it.empty() && s.chance(1, 8)) {
      Item x = s.pick(it);
      if (s.flip()) std::reverse(x.l.begin(), x.l.end());
      it.push_back(x);
      continue;
    }
    Loop l = GenFacet(s, r);
    for (P3& p : l) p = f(p);
    it.push_back({l, (size_t)s.draw(3)});
  }
  RepStyle st = GenRepStyle(s);
  State root;
  for (const Item& i : it) {
    c << i.id << ": " << i.l << "\n";
    root.polys.emplace_back(i.id, nullptr, false, ToPoly(s, i.l, st));
  }
  it = Items(root.polys);
  for (int d = 0; d < 3; ++d) {
    root.ev[d].resize(2 * n);
    walnut::MakeEventPoints(d, root.polys, root.ev[d].data());
    CheckEvents(root.ev[d].data(), it, d, true, "new list");
  }
  Runner run{s, c};
  run.Divide(std::move(root), 1 + s.draw(4));
  if (run.crossing) { c.label("facets divided"); c.nontrivial(); }
  if (run.borders) c.label("facets in the plane");
  if (run.splits > 3) c.label("more than 3 partitions");
}

}  // namespace

PBT_MAIN((pbt::Property{"C01", "some facet was divided by a partition", Run, 20}))
