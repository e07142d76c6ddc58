// G03: orderings of geometric objects are consistent strict weak orders with
// exactly the promised ties; hashes agree with equality.
#include <set>
#include <unordered_set>

#include "geo.h"
#include "walnut/convex_polygon_edge.h"
#include "walnut/double_point3.h"
#include "walnut/half_space2_sideless_compare.h"

using namespace gen;

namespace {

// `same(i, j)` is the equivalence the order promises, from exact values.
template <class T, class Less, class Same>
void CheckOrder(pbt::Src& s, pbt::Ctx& c, const char* name, const std::vector<T>& v,
                const std::vector<std::string>& text, Less less, Same same) {
  size_t n = v.size();
  std::vector<std::vector<int>> lt(n, std::vector<int>(n));
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < n; ++j) lt[i][j] = less(v[i], v[j]) ? 1 : 0;
  }
  for (size_t i = 0; i < n; ++i) {
    PBT_CHECK(!lt[i][i], name << ": " << text[i] << " is less than itself");
    for (size_t j = 0; j < n; ++j) {
      if (i == j) continue;
      PBT_CHECK(!(lt[i][j] && lt[j][i]), name << ": " << text[i] << " and " << text[j] << " are each less than the other");
      bool tie = !lt[i][j] && !lt[j][i];
      bool want = same(i, j);
      if (want) { c.label(std::string(name) + ": tie"); c.nontrivial(); }
      PBT_CHECK(tie == want, name << ": " << text[i] << " and " << text[j] << (want ? " are the same but ordered" : " differ but tie"));
      for (size_t k = 0; k < n; ++k) {
        if (lt[i][j] && lt[j][k]) {
          PBT_CHECK(lt[i][k], name << ": not transitive for " << text[i] << " < " << text[j] << " < " << text[k]);
        }
      }
    }
  }
  // Set membership as a user relies on it.
  std::set<T, Less> set(less);
  size_t classes = 0;
  for (size_t i = 0; i < n; ++i) {
    bool fresh = true;
    for (size_t j = 0; j < i; ++j) fresh = fresh && !same(i, j);
    classes += fresh;
    bool inserted = set.insert(v[i]).second;
    PBT_CHECK(inserted == fresh, name << ": inserting " << text[i] << " into a set " << (inserted ? "added a duplicate" : "lost it"));
  }
  PBT_CHECK(set.size() == classes, name << ": set of " << set.size() << " for " << classes << " distinct objects");
}

template <class T> std::string Text(const T& t) {
  std::ostringstream o;
  o << t;
  return o.str();
}

size_t Count(pbt::Src& s) { return s.size(2, 7); }

struct HomoLex { bool operator()(const HomoPoint3& a, const HomoPoint3& b) const { return HomoPoint3::LexicographicallyLt(a, b); } };
struct HomoTop { bool operator()(const HomoPoint3& a, const HomoPoint3& b) const { return HomoPoint3::TopnessLt(a, b); } };
struct Homo2Lex { bool operator()(const HomoPoint2& a, const HomoPoint2& b) const { return HomoPoint2::LexicographicallyLt(a, b); } };
struct P3Lex { bool operator()(const Point3& a, const Point3& b) const { return Point3::LexicographicallyLt(a, b); } };

void Points(pbt::Src& s, pbt::Ctx& c) {
  size_t n = Count(s);
  bool integer = s.draw(4) == 0;
  std::vector<P3> p;
  std::vector<HomoPoint3> h;
  std::vector<HomoPoint2> h2;
  std::vector<Point3> ip;
  std::vector<std::string> t;
  for (size_t i = 0; i < n; ++i) {
    p.push_back(GenRelated(s, p, integer));
    h.push_back(Homo(p[i], GenScale(s)));
    h2.push_back(Homo2(p[i], GenScale(s)));
    t.push_back(Text(h[i]));
    c << h[i] << "\n";
    if (integer) ip.push_back(IntP(p[i]));
  }
  auto same = [&](size_t i, size_t j) { return p[i] == p[j]; };
  CheckOrder(s, c, "HomoPoint3 lexicographic", h, t, HomoLex(), same);
  CheckOrder(s, c, "HomoPoint3 topness", h, t, HomoTop(), same);
  auto same2 = [&](size_t i, size_t j) { return p[i][0] == p[j][0] && p[i][1] == p[j][1]; };
  CheckOrder(s, c, "HomoPoint2 lexicographic", h2, t, Homo2Lex(), same2);
  if (integer) CheckOrder(s, c, "Point3 lexicographic", ip, t, P3Lex(), same);
  // Hashes of reduced points.
  std::unordered_set<HomoPoint3, walnut::ReducedHomoPoint3Hasher, walnut::HomoPoint3StrictEq> set;
  for (size_t i = 0; i < n; ++i) {
    HomoPoint3 r(h[i]);
    r.Reduce();
    bool fresh = true;
    for (size_t j = 0; j < i; ++j) fresh = fresh && p[i] != p[j];
    PBT_CHECK(set.insert(r).second == fresh, "hash set of reduced points: " << t[i] << " fresh = " << fresh);
    for (size_t j = 0; j < i; ++j) {
      HomoPoint3 q(h[j]);
      q.Reduce();
      PBT_CHECK(walnut::HomoPoint3StrictEq()(r, q) == (p[i] == p[j]), "strict equality of reduced points " << t[i] << " and " << t[j]);
      if (p[i] == p[j]) PBT_CHECK(walnut::ReducedHomoPoint3Hasher()(r) == walnut::ReducedHomoPoint3Hasher()(q), "hash of equal reduced points " << t[i] << " and " << t[j]);
    }
  }
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < n; ++j) {
      bool eq = walnut::HomoPoint3StrictEq()(h[i], h[j]);
      if (eq) {
        PBT_CHECK(p[i] == p[j], "strictly equal points differ");
        PBT_CHECK(walnut::ReducedHomoPoint3Hasher()(h[i]) == walnut::ReducedHomoPoint3Hasher()(h[j]), "strictly equal points hash differently");
      }
    }
  }
  // Doubles.
  for (size_t i = 0; i < n; ++i) {
    walnut::DoublePoint3 a = h[i].GetDoublePoint3();
    walnut::DoublePoint3 b(a.x == 0 ? -a.x : a.x, a.y == 0 ? -a.y : a.y, a.z == 0 ? -a.z : a.z);
    PBT_CHECK(a == b && !(a != b), "double point does not equal itself up to the sign of zero");
    PBT_CHECK(a.GetHash() == b.GetHash() && std::hash<walnut::DoublePoint3>()(a) == a.GetHash(), "equal double points hash differently");
    for (size_t j = 0; j < n; ++j) {
      walnut::DoublePoint3 d = h[j].GetDoublePoint3();
      PBT_CHECK((a == d) == (a.x == d.x && a.y == d.y && a.z == d.z), "DoublePoint3 equality");
      PBT_CHECK((a != d) == !(a == d), "DoublePoint3 inequality");
    }
  }
}

void Directions(pbt::Src& s, pbt::Ctx& c) {
  size_t n = Count(s);
  std::vector<P3> p;
  std::vector<Vector2> v;
  std::vector<std::string> t;
  for (size_t i = 0; i < n; ++i) {
    P3 d;
    switch (p.empty() ? 0 : s.draw(4)) {
      case 0: d = P3(Q(GenCoord(s)), Q(GenCoord(s)), 0); break;
      case 1: d = s.pick(p) * Q(GenScale(s)); break;
      case 2: d = s.pick(p); d[s.draw(2)] *= -1; break;
      default: d = s.pick(p) * Q(GenScale(s)); d[s.draw(2)] += s.flip() ? 1 : -1; break;
    }
    if (s.draw(6) == 0) d[s.draw(2)] = 0;
    if (d.IsZero()) d[0] = s.flip() ? -1 : 1;
    p.push_back(d);
    v.push_back(Vector2(FromZ(d[0].get_num()), FromZ(d[1].get_num())));
    t.push_back(Text(v[i]));
    c << v[i] << "\n";
  }
  CheckOrder(s, c, "rotation", v, t, Vector2::RotationCompare(), [&](size_t i, size_t j) { return SameDir(p[i], p[j]); });
  CheckOrder(s, c, "half rotation", v, t, Vector2::HalfRotationCompare(), [&](size_t i, size_t j) { return Parallel(p[i], p[j]); });
  // Order as documented: by angle from the x axis.
  P3 x(1, 0, 0);
  for (size_t i = 0; i < n; ++i) {
    Vector2 xa(FromZ(1), FromZ(0));
    PBT_CHECK(!v[i].IsRotationLessThan(xa) && !v[i].IsHalfRotationLessThan(xa), t[i] << " sorts before the x axis");
  }
}

void Planes(pbt::Src& s, pbt::Ctx& c) {
  size_t n = Count(s);
  std::vector<Pl> pl;
  std::vector<HalfSpace3> h;
  std::vector<std::string> t;
  for (size_t i = 0; i < n; ++i) {
    P3 nn;
    Q d;
    switch (pl.empty() ? 0 : s.draw(5)) {
      case 0: nn = GenIntPoint(s); d = Q(GenCoord(s)); break;
      case 1: {
        Q k(GenScale(s, false));
        if (s.draw(3) == 0) k = -k;
        const Pl& o = s.pick(pl);
        nn = o.n * k;
        d = o.d * k;
        break;
      }
      case 2: {
        // Same components in another order or with another sign.
        const Pl& o = s.pick(pl);
        nn = o.n;
        d = o.d;
        std::swap(nn[s.draw(3)], nn[s.draw(3)]);
        nn[s.draw(3)] *= -1;
        break;
      }
      case 3: nn = s.pick(pl).n; d = Q(GenCoord(s)); break;
      default: {
        // Components that add up to zero.
        nn = GenIntPoint(s);
        nn[2] = -nn[0] - nn[1];
        d = Q(GenCoord(s));
        break;
      }
    }
    if (nn.IsZero()) nn = P3(0, 0, 1);
    h.push_back(Plane(nn, d, 1));
    pl.push_back(ToPl(h[i]));
    t.push_back(Text(h[i]));
    c << h[i] << "\n";
  }
  CheckOrder(s, c, "HalfSpace3Compare", h, t, walnut::HalfSpace3Compare(), [&](size_t i, size_t j) { return SameHalfSpace(pl[i], pl[j]); });
}

void Lines2(pbt::Src& s, pbt::Ctx& c) {
  size_t n = Count(s);
  std::vector<P3> l;  // x, y, d
  std::vector<HalfSpace2> h;
  std::vector<std::string> t;
  for (size_t i = 0; i < n; ++i) {
    P3 v;
    switch (l.empty() ? 0 : s.draw(4)) {
      case 0: v = GenIntPoint(s); break;
      case 1: v = s.pick(l) * Q(GenScale(s)); break;
      case 2: v = s.pick(l); v[s.draw(3)] *= -1; break;
      default: v = s.pick(l); v[2] = Q(GenCoord(s)); break;
    }
    if (s.draw(5) == 0) v[s.draw(2)] = 0;
    if (v[0] == 0 && v[1] == 0) v[1] = s.flip() ? 1 : -1;
    l.push_back(v);
    h.push_back(HalfSpace2(FromZ(v[0].get_num()), FromZ(v[1].get_num()), FromZ(v[2].get_num())));
    std::ostringstream o;
    o << v[0] << "x + " << v[1] << "y = " << v[2];
    t.push_back(o.str());
    c << t[i] << "\n";
  }
  CheckOrder(s, c, "HalfSpace2SidelessCompare", h, t, walnut::HalfSpace2SidelessCompare(), [&](size_t i, size_t j) { return Parallel(l[i], l[j]); });
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  switch (s.draw(4)) {
    case 0: c.label("points"); Points(s, c); break;
    case 1: c.label("directions"); Directions(s, c); break;
    case 2: c.label("planes"); Planes(s, c); break;
    default: c.label("2D lines"); Lines2(s, c); break;
  }
}

}  // namespace

PBT_MAIN((pbt::Property{"G03", "the generated objects contain two that the order must identify, in different form", Run, 5.0}))
