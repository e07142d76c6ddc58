// F05: planes fitted to vertices of which some may be moved.
#include <deque>

#include "geo.h"
#include "walnut/nudging_plane_builder.h"

using namespace gen;
using walnut::NudgingPlaneBuilder;

namespace {

struct Added {
  P3 p;
  bool fixed;
};

bool Line(const std::vector<P3>& v) {
  for (size_t i = 0; i < v.size(); ++i) {
    for (size_t j = i + 1; j < v.size(); ++j) {
      for (size_t k = j + 1; k < v.size(); ++k) {
        if (!Cross(v[j] - v[i], v[k] - v[i]).IsZero()) return false;
      }
    }
  }
  return true;
}

std::vector<P3> Points(const std::vector<Added>& a, bool only_fixed) {
  std::vector<P3> r;
  for (const Added& x : a) if (x.fixed || !only_fixed) r.push_back(x.p);
  return r;
}

Pl Through(const P3& a, const P3& b, const P3& c) {
  Pl r;
  r.n = Cross(b - a, c - a);
  r.d = Dot(r.n, a);
  return r;
}

// Contains all fixed vertices, runs through three of the vertices and faces the
// side from which these three appear in counter-clockwise order as added.
void CheckPlane(const HalfSpace3& h, const std::vector<Added>& a) {
  PBT_CHECK(h.IsValid(), "the plane has no normal");
  Pl pl = ToPl(h);
  for (const Added& x : a) {
    PBT_CHECK(!x.fixed || pl.Side(x.p) == 0, "the plane " << pl << " misses the fixed vertex " << x.p);
  }
  for (size_t i = 0; i < a.size(); ++i) {
    if (pl.Side(a[i].p) != 0) continue;
    for (size_t j = i + 1; j < a.size(); ++j) {
      if (pl.Side(a[j].p) != 0) continue;
      for (size_t k = j + 1; k < a.size(); ++k) {
        if (pl.Side(a[k].p) != 0) continue;
        Pl t = Through(a[i].p, a[j].p, a[k].p);
        if (!t.n.IsZero() && SameHalfSpace(t, pl)) return;
      }
    }
  }
  PBT_FAIL("the plane " << pl << " does not run through three vertices in the order they were added");
}

void Query(pbt::Src& s, pbt::Ctx& c, NudgingPlaneBuilder& b, const std::vector<Added>& a) {
  bool line = Line(Points(a, false));
  if (line) {
    if (s.flip()) PBT_CHECK(!b.HasLargePlane(), "a plane is large although there is none");
    return;
  }
  bool large = false, asked = s.flip();
  if (asked) large = b.HasLargePlane();
  const NudgingPlaneBuilder& cb = b;
  HalfSpace3 h = cb.Build();
  CheckPlane(h, a);
  HalfSpace3 again = s.flip() ? cb.Build() : NudgingPlaneBuilder(b).Build();
  PBT_CHECK(SameHalfSpace(ToPl(h), ToPl(again)), "building again gives " << ToPl(again) << " instead of " << ToPl(h));
  if (asked) {
    // Two planes of one pencil may be chosen before and after, but not here:
    // nothing was added in between.
    bool want = false;
    Z v[4] = {ToZ(h.x()), ToZ(h.y()), ToZ(h.z()), ToZ(h.d())};
    for (const Z& x : v) {
      if (x < -Pow2(31) || x >= Pow2(31)) want = true;
    }
    PBT_CHECK(large == want, "HasLargePlane is " << large << " for " << ToPl(h));
    c.label(want ? "large" : "small");
  }
  c.label("plane");
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  bool integer = s.flip();
  bool grid = s.flip();
  Z big = s.chance(1, 4) ? Pow2(s.draw(60)) : Z(1);
  std::vector<P3> pts;
  std::deque<HomoPoint3> store;
  std::vector<Added> added;
  NudgingPlaneBuilder b;
  size_t rejected = 0, fixed = 0, moves = 0;
  int bias = s.draw(3);
  for (size_t k = 0; s.more(k, 3, 12); ++k) {
    P3 p;
    if (!pts.empty() && s.chance(1, 10)) p = s.pick(pts);
    else if (grid) p = P3(Q((long)s.range(0, 2)), Q((long)s.range(0, 2)), Q((long)s.range(0, 2))) * Q(big);
    else if (pts.empty()) p = GenPoint(s, integer);
    else p = GenRelated(s, pts, integer);
    pts.push_back(p);
    store.push_back(Homo(p, GenScale(s)));
    bool fix = s.draw(4) < (uint64_t)(bias + 1);
    c << (fix ? "fixed " : "free ") << p << "\n";
    if (fix) {
      std::vector<P3> f = Points(added, true);
      bool full = !Line(f);
      bool on = true;
      if (full) {
        for (size_t i = 0; i < f.size() && on; ++i) for (size_t j = i + 1; j < f.size() && on; ++j) for (size_t l = j + 1; l < f.size() && on; ++l) {
          Pl t = Through(f[i], f[j], f[l]);
          if (!t.n.IsZero() && t.Side(p) != 0) on = false;
        }
      }
      bool got = b.TryAddConstrained(&store.back());
      PBT_CHECK(got == on, "fixed vertex " << p << (got ? " accepted" : " rejected"));
      if (got) { added.push_back({p, true}); ++fixed; }
      else { ++rejected; c.label("rejected"); }
    } else {
      b.AddUnconstrained(&store.back());
      added.push_back({p, false});
      ++moves;
    }
    if (s.chance(1, 4)) Query(s, c, b, added);
    if (s.chance(1, 12)) { NudgingPlaneBuilder o(b); b = o; c.label("copied"); }
  }
  if (fixed && moves) c.label("mixed");
  if (Line(Points(added, false))) {
    c.label("line");
    Query(s, c, b, added);
    return;
  }
  c.nontrivial();
  Query(s, c, b, added);
  if (s.flip()) CheckPlane(std::move(b).Build(), added);
}

}  // namespace

PBT_MAIN((pbt::Property{"F05", "the vertices are not all on one line", Run, 20}))
