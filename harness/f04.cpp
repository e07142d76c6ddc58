// F04: repair of facets that are only approximately planar.
#include "boolean.h"
#include "outline.h"
#include "walnut/mesh_plane_repairer.h"

using namespace gen;
using walnut::MeshPlaneRepairer;
using walnut::MeshPlaneRepairerBase;
using walnut::MeshPlaneRepairerProducer;

namespace {

using Ids = std::vector<size_t>;

// Thrown when facets or the planes that meet at a vertex do not determine the
// repaired mesh: no vertices off a line, or parallel planes at a vertex.
struct Undetermined {};

struct Rat {
  Pl pl;
  bool SameOrOpposite(const Rat& o) const {
    if (!Parallel(pl.n, o.pl.n)) return false;
    return pl.d * o.pl.n[Axis()] == o.pl.d * pl.n[Axis()];
  }
  int Axis() const { return pl.n[0] != 0 ? 0 : pl.n[1] != 0 ? 1 : 2; }
};

bool Independent(const std::vector<P3>& v) {
  if (v.size() == 2) return v[0] != v[1];
  if (v.size() == 3) return !Cross(v[1] - v[0], v[2] - v[0]).IsZero();
  return v.size() < 2;
}

// Walks through the repair as it is documented, only to tell whether it is
// determined; nothing of it is compared with the library.
class Walk {
 public:
  explicit Walk(const std::vector<P3>& pts) {
    for (const P3& p : pts) v_.push_back({p, {}});
  }
  void Facet(const Ids& f) {
    size_t a = 0, b = f.size();
    while (true) {
      size_t a0 = a, b0 = b;
      Rat pl = Range(f, &a, &b);
      for (size_t i = a0; i < a; ++i) Add(f[i], pl);
      for (size_t i = b; i < b0; ++i) Add(f[i], pl);
      if (a == b) break;
      --a;
      ++b;
    }
  }
  void Finish() {
    for (V& v : v_) if (v.adj.size() < 3) Fix(v);
  }

 private:
  struct V { P3 p; std::vector<Rat> adj; };
  struct Builder {
    std::vector<P3> c, u;
    void AddU(const P3& p) {
      if (c.size() == 3) return;
      std::vector<P3> t = u;
      t.push_back(p);
      if (Independent(t)) u = t;
    }
    bool AddC(const P3& p) {
      std::vector<P3> t = c;
      t.push_back(p);
      if (c.size() < 3) { if (Independent(t)) c = t; return true; }
      return Dot(Cross(c[1] - c[0], c[2] - c[0]), p - c[0]) == 0;
    }
    bool Plane(Rat* r) const {
      std::vector<P3> t = c;
      for (const P3& p : u) if (t.size() < 3) { t.push_back(p); if (!Independent(t)) t.pop_back(); }
      if (t.size() < 3) return false;
      r->pl.n = Cross(t[1] - t[0], t[2] - t[0]);
      r->pl.d = Dot(r->pl.n, t[0]);
      return true;
    }
    bool Large() const {
      Rat r;
      if (!Plane(&r)) return false;
      Z den = CommonDen(r.pl.n);
      den = den * CommonDen(P3(r.pl.d * Q(den), 0, 0));
      P3 n = r.pl.n * Q(den);
      Z d = Q(r.pl.d * Q(den)).get_num();
      Z g = gcd(gcd(n[0].get_num(), n[1].get_num()), gcd(n[2].get_num(), d));
      auto big = [&](const Z& z) { Z q = z / g; return q > 2147483647L || q < -2147483648L; };
      return big(n[0].get_num()) || big(n[1].get_num()) || big(n[2].get_num()) || big(d);
    }
  };
  Rat Range(const Ids& f, size_t* a, size_t* b) {
    Builder t;
    auto take = [&](size_t i, bool first) {
      V& v = v_[f[i]];
      if (v.adj.size() < 3) {
        if (!first && t.Large()) return false;
        t.AddU(v.p);
        return true;
      }
      return t.AddC(v.p);
    };
    take(--*b, true);
    for (; *a != *b; ++*a) {
      if (!take(*a, false)) {
        if (v_[f[*a]].adj.size() == 3) while (take(*b - 1, false)) --*b;
        break;
      }
    }
    Rat r;
    if (!t.Plane(&r)) throw Undetermined();
    return r;
  }
  void Add(size_t i, const Rat& pl) {
    V& v = v_[i];
    if (v.adj.size() == 3) return;
    for (const Rat& o : v.adj) if (o.SameOrOpposite(pl)) return;
    v.adj.push_back(pl);
    if (v.adj.size() == 3) Fix(v);
  }
  void Fix(V& v) {
    bool on = true;
    for (const Rat& r : v.adj) on = on && r.pl.Side(v.p) == 0;
    if (on) return;
    P3 n[3];
    Q d[3];
    for (size_t i = 0; i < v.adj.size(); ++i) { n[i] = v.adj[i].pl.n; d[i] = v.adj[i].pl.d; }
    if (v.adj.size() == 1) {
      v.p = v.p + n[0] * Q((d[0] - Dot(n[0], v.p)) / Dot(n[0], n[0]));
      return;
    }
    if (v.adj.size() == 2) { n[2] = Cross(n[0], n[1]); d[2] = Dot(n[2], v.p); }
    Q det = Det(n[0], n[1], n[2]);
    if (det == 0) throw Undetermined();
    v.p = (Cross(n[1], n[2]) * d[0] + Cross(n[2], n[0]) * d[1] + Cross(n[0], n[1]) * d[2]) * Q(Q(1) / det);
  }
  std::vector<V> v_;
};

// Addresses of the vertices as the producer hands them out.
struct Repairer : MeshPlaneRepairer<> {
  const HomoPoint3* Address(const HomoPoint3& p) { return &AddVertexInfo(p)->point; }
};

void Index(const Mesh& m, std::vector<P3>* pts, std::vector<Ids>* facets) {
  std::map<P3, size_t> at;
  for (const Loop& l : m) {
    Ids f;
    for (const P3& p : l) {
      auto it = at.emplace(p, pts->size());
      if (it.second) pts->push_back(p);
      f.push_back(it.first->second);
    }
    facets->push_back(f);
  }
}

void Gen(pbt::Src& s, std::vector<P3>* pts, std::vector<Ids>* facets) {
  switch (s.draw(6)) {
    case 0: {  // Facets over any points.
      size_t n = s.size(3, 10);
      long r = s.flip() ? 3 : 50;
      std::set<P3> seen;
      for (size_t i = 0; i < n; ++i) {
        P3 p = IP(s.range(-r, r), s.range(-r, r), s.range(-r, r));
        if (seen.insert(p).second) pts->push_back(p);
      }
      if (pts->size() < 3) throw pbt::Discard();
      size_t m = s.size(1, 8);
      for (size_t i = 0; i < m; ++i) {
        Ids all;
        for (size_t k = 0; k < pts->size(); ++k) all.push_back(k);
        s.shuffle(all);
        all.resize(3 + s.draw(std::min<size_t>(pts->size(), 7) - 2));
        facets->push_back(all);
      }
      break;
    }
    case 1: case 2: {  // Rings joined by sides; the caps meet many facets.
      size_t n = s.size(3, 8);
      static const int cx[8] = {40, 28, 0, -28, -40, -28, 0, 28}, cy[8] = {0, 28, 40, 28, 0, -28, -40, -28};
      long sx = s.range(-9, 9), sy = s.range(-9, 9);
      for (size_t i = 0; i < n; ++i) pts->push_back(IP(cx[i], cy[i], 0));
      for (size_t i = 0; i < n; ++i) pts->push_back(IP(cx[i] + sx, cy[i] + sy, 50));
      Ids bottom, top;
      for (size_t i = 0; i < n; ++i) { bottom.push_back(n - 1 - i); top.push_back(n + i); }
      facets->push_back(bottom);
      facets->push_back(top);
      for (size_t i = 0; i < n; ++i) {
        size_t a = i, b = (i + 1) % n, c = n + b, d = n + a;
        switch (s.draw(3)) {
          case 0: facets->push_back({a, b, c, d}); break;
          case 1: facets->push_back({a, b, c}); facets->push_back({a, c, d}); break;
          default: facets->push_back({a, b, d}); facets->push_back({b, c, d}); break;
        }
      }
      break;
    }
    default: {
      Mesh m;
      switch (s.draw(4)) {
        case 0: m = GenPolyCube(s); break;
        case 1: m = GenShape(s); break;
        case 2: m = Subdivide(s, GenShape(s), 4); break;
        default: {  // A planar outline of any kind as one facet among others.
          bool simple, mono;
          Loop l = GenFlatOutline(s, &simple, &mono);
          if (l.size() >= 3) m.push_back(l);
          Append(m, GenShape(s));
          break;
        }
      }
      Index(m, pts, facets);
      break;
    }
  }
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  std::vector<P3> pts;
  std::vector<Ids> facets;
  Gen(s, &pts, &facets);
  if (facets.empty()) throw pbt::Discard();
  s.shuffle(facets);
  for (Ids& f : facets) if (s.flip()) std::rotate(f.begin(), f.begin() + s.draw(f.size()), f.end());
  Affine f = GenAffine(s);
  Q scale = s.chance(1, 4) ? Q(1) : Q(Pow2(s.draw(24)));
  for (P3& p : pts) p = f(p * scale);
  Mesh exact;
  for (const Ids& x : facets) { Loop l; for (size_t i : x) l.push_back(pts[i]); exact.push_back(l); }
  // Move some of the vertices.
  int how = s.draw(4);
  if (how) for (P3& p : pts) if (s.chance(how, 3)) {
    P3 d = IP(s.range(-3, 3), s.range(-3, 3), s.range(-3, 3));
    if (s.chance(1, 4)) d = d * Q(1, 1 + s.draw(200));
    p = p + d;
  }
  {
    std::set<P3> seen(pts.begin(), pts.end());
    if (seen.size() != pts.size()) throw pbt::Discard();
  }
  auto planar = [&](const Ids& x) {
    P3 n;
    for (size_t i = 2; i < x.size() && n.IsZero(); ++i)
      for (size_t j = 1; j < i && n.IsZero(); ++j) n = Cross(pts[x[j]] - pts[x[0]], pts[x[i]] - pts[x[0]]);
    for (size_t i : x) if (Dot(n, pts[i] - pts[x[0]]) != 0) return false;
    return true;
  };
  bool all_planar = true;
  for (const Ids& x : facets) all_planar = all_planar && planar(x);
  for (const Ids& x : facets) { Loop l; for (size_t i : x) l.push_back(pts[i]); c << l << "\n"; }
  try {
    Walk w(pts);
    for (const Ids& x : facets) w.Facet(x);
    w.Finish();
  } catch (Undetermined&) {
    c.label("not determined");
    throw pbt::Discard();
  }

  RepStyle st = GenRepStyle(s);
  Repairer r;
  auto make = [&](size_t i) { return Homo(pts[i], st.scales ? GenScale(s, st.negative) : Z(1)); };
  auto fill = [&](size_t count) {
    for (size_t k = 0; k < count; ++k) {
      for (size_t i : facets[k]) {
        HomoPoint3 p = make(i);
        if (s.flip()) r.AddVertex(p); else r.AddVertex(std::move(p));
      }
      r.FinishFacet();
    }
  };
  if (s.chance(1, 6)) {
    fill(1);
    // Part of another facet.
    for (size_t k = s.draw(3); k > 0 && s.flip(); --k) r.AddVertex(make(facets.back()[k - 1]));
    r.Clear();
  }
  fill(facets.size());
  std::map<const HomoPoint3*, size_t> id;
  std::set<size_t> used;
  for (const Ids& x : facets) used.insert(x.begin(), x.end());
  PBT_CHECK(r.GetUniqueVertexCount() == used.size(), r.GetUniqueVertexCount() << " unique vertices of " << used.size());
  for (size_t i = 0; i < pts.size(); ++i) PBT_CHECK(r.HasVertex(make(i)) == (used.count(i) > 0), "HasVertex of vertex " << i);
  PBT_CHECK(r.IsValidState(), "IsValidState");
  for (size_t i : used) {
    const HomoPoint3* a = r.Address(make(i));
    PBT_CHECK(id.emplace(a, i).second, "two different vertices were unified");
  }
  PBT_CHECK(id.size() == used.size(), "vertices added by looking them up");
  auto out = std::move(r).FinalizeMesh();
  std::vector<std::vector<Pl>> planes(pts.size());
  std::vector<P3> now(pts.size());
  bool moved_any = false;
  for (auto& e : id) {
    PBT_CHECK(!e.first->w().IsZero(), "vertex " << pts[e.second] << " has no position after the repair");
    now[e.second] = ToP(*e.first);
    if (now[e.second] != pts[e.second]) moved_any = true;
  }
  size_t pieces = 0, split = 0;
  for (const Ids& x : facets) {
    // Directed edges of the facet, less those of its pieces.
    std::map<std::pair<size_t, size_t>, int> rim;
    auto edge = [&](size_t a, size_t b, int k) {
      if (a == b) return;
      if (a > b) { std::swap(a, b); k = -k; }
      if (!(rim[{a, b}] += k)) rim.erase({a, b});
    };
    for (size_t i = 0; i < x.size(); ++i) edge(x[i], x[(i + 1) % x.size()], 1);
    std::set<size_t> own(x.begin(), x.end());
    size_t parts = 0, vertices = 0;
    // Each part uses two vertices of the rest again.
    while (vertices < x.size() + 2 * parts - (parts ? 2 : 0) || parts == 0) {
      PBT_CHECK(out.HasMorePolygons(), "facet " << x.size() << " of vertices lacks a piece");
      MeshPlaneRepairerProducer<>::VertexIterator v, end;
      HalfSpace3 h = out.GetNextPolygon(v, end);
      Pl pl = ToPl(h);
      PBT_CHECK(!pl.n.IsZero(), "a facet has no plane");
      Ids got;
      for (; v != end; ++v) {
        auto it = id.find(&*v);
        PBT_CHECK(it != id.end(), "a vertex that was never added");
        got.push_back(it->second);
        PBT_CHECK(own.count(it->second), "a vertex of another facet");
        PBT_CHECK(pl.Side(now[it->second]) == 0, "vertex " << pts[it->second] << " repaired to " << now[it->second] << " is not in the plane " << pl << " of its facet");
      }
      PBT_CHECK(got.size() >= 3, "a facet with " << got.size() << " vertices");
      for (size_t i = 0; i < got.size(); ++i) edge(got[i], got[(i + 1) % got.size()], -1);
      for (size_t i : got) {
        auto& p = planes[i];
        bool dup = false;
        for (const Pl& o : p) dup = dup || Rat{o}.SameOrOpposite(Rat{pl});
        if (!dup) p.push_back(pl);
      }
      ++parts;
      ++pieces;
      vertices += got.size();
      if (all_planar) {
        Loop l;
        bool convex = true;
        for (size_t i : x) l.push_back(pts[i]);
        P3 a = AreaVec(l);
        for (size_t i = 0; i < l.size(); ++i) for (const P3& q : l) if (Dot(Cross(l[(i + 1) % l.size()] - l[i], q - l[i]), a) < 0) convex = false;
        if (convex && !a.IsZero()) PBT_CHECK(SameDir(pl.n, a), "a convex facet changed its orientation");
      }
    }
    PBT_CHECK(rim.empty(), "the pieces of a facet have another rim than the facet: " << rim.size() << " edges differ, of vertices "
              << pts[rim.begin()->first.first] << " and " << pts[rim.begin()->first.second]);
    if (parts > 1) ++split;
  }
  PBT_CHECK(!out.HasMorePolygons(), "more facets than were added");
  for (size_t i : used) {
    P3 d = now[i] - pts[i];
    bool on = true;
    for (const Pl& p : planes[i]) on = on && p.Side(pts[i]) == 0;
    if (on) PBT_CHECK(d.IsZero(), "vertex " << pts[i] << " was moved though it was in all of its planes");
    if (planes[i].size() == 1) PBT_CHECK(Parallel(d, planes[i][0].n), "vertex " << pts[i] << " was not projected onto its plane");
    if (planes[i].size() == 2) PBT_CHECK(Dot(d, Cross(planes[i][0].n, planes[i][1].n)) == 0, "vertex " << pts[i] << " was not projected onto the line of its planes");
  }
  if (all_planar) {
    PBT_CHECK(!moved_any, "a vertex of an exact mesh was moved");
    c.label("exact mesh");
  }
  if (moved_any) { c.label("moved"); c.nontrivial(); }
  if (split) { c.label("split"); c.nontrivial(); }
}

}  // namespace

PBT_MAIN((pbt::Property{"F04", "a vertex was moved or a facet divided", Run, 20}))
