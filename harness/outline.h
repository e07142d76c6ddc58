// Closed point lists, their boundary as exact chains of directed segments, and
// running the factory of convex polygons on them.
#ifndef VERIF_OUTLINE_H
#define VERIF_OUTLINE_H

#include <list>
#include "links.h"
#include "walnut/convex_polygon_factory.h"
#include "walnut/point3_with_vertex_data.h"

namespace gen {

// Sum of directed segments, modulo subdivision: for every line the change of
// the covering number at every point.
struct Chain {
  std::map<LineKey, std::map<Q, long>> lines;
  void Add(const P3& a, const P3& b, long times = 1) {
    if (a == b) return;
    LineKey key(a, b);
    int k = 0;
    while (key.d[k] == 0) ++k;
    std::map<Q, long>& m = lines[key];
    // +1 upwards between the ends.
    m[a[k]] += times;
    m[b[k]] -= times;
    for (const Q& t : {a[k], b[k]}) if (m.count(t) && m[t] == 0) m.erase(t);
    if (m.empty()) lines.erase(key);
  }
  void Add(const Loop& l, long times = 1) {
    for (size_t i = 0; i < l.size(); ++i) Add(l[i], l[(i + 1) % l.size()], times);
  }
  bool empty() const { return lines.empty(); }
  std::string Show() const {
    std::ostringstream o;
    for (const auto& l : lines) {
      o << "line " << l.first.d << ":";
      for (const auto& p : l.second) o << " " << p.first << (p.second > 0 ? " +" : " ") << p.second;
      o << "; ";
    }
    return o.str();
  }
};

// Whether a flat (z = 0) closed polyline touches itself nowhere, apart from
// repeated neighbours.
inline bool IsSimpleFlat(const Loop& in) {
  Loop l;
  for (const P3& p : in) if (l.empty() || l.back() != p) l.push_back(p);
  while (l.size() > 1 && l.back() == l.front()) l.pop_back();
  size_t n = l.size();
  if (n < 3) return false;
  auto side = [](const P3& a, const P3& b, const P3& c) { return sgn(Q((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))); };
  auto on = [&](const P3& a, const P3& b, const P3& c) { return side(a, b, c) == 0 && Dot(c - a, c - b) <= 0; };
  for (size_t i = 0; i < n; ++i) {
    const P3 &a = l[i], &b = l[(i + 1) % n];
    // The next edge shares only b.
    const P3& c = l[(i + 2) % n];
    if (side(a, b, c) == 0 && Dot(b - a, c - b) < 0) return false;
    for (size_t j = i + 2; j < n; ++j) {
      if (i == 0 && j == n - 1) continue;
      const P3 &d = l[j], &e = l[(j + 1) % n];
      if (on(a, b, d) || on(a, b, e) || on(d, e, a) || on(d, e, b)) return false;
      if (side(a, b, d) != side(a, b, e) && side(d, e, a) != side(d, e, b)) return false;
    }
  }
  return true;
}

// Planar outline, z = 0, small integers.
inline Loop GenFlatOutline(pbt::Src& s, bool* simple, bool* monotone_x) {
  Loop l;
  *simple = *monotone_x = false;
  long r = s.flip() ? 3 : 9;
  // Now and then a long list.
  bool big = s.draw(24) == 23;
  switch (s.draw(9)) {
    case 0: case 1: {  // Anything.
      size_t n = big ? s.size(15, 40) : s.flip() ? s.size(0, 7) : s.size(3, 14);
      for (size_t i = 0; i < n; ++i) l.push_back(IP(s.range(-r, r), s.range(-r, r), 0));
      break;
    }
    case 2: case 3: {  // Star-shaped.
      std::vector<P3> p;
      std::set<std::pair<Q, Q>> dirs;
      size_t n = big ? s.size(20, 60) : s.size(3, 14);
      if (big) r = 20;
      for (size_t i = 0; i < n; ++i) {
        P3 q = IP(s.range(-r, r), s.range(-r, r), 0);
        if (q.IsZero()) continue;
        Z g = gcd(q[0].get_num(), q[1].get_num());
        if (!dirs.insert({q[0] / Q(g), q[1] / Q(g)}).second) continue;
        p.push_back(q);
      }
      auto half = [](const P3& a) { return a[1] < 0 || (a[1] == 0 && a[0] < 0); };
      std::sort(p.begin(), p.end(), [&](const P3& a, const P3& b) {
        if (half(a) != half(b)) return half(a) < half(b);
        return a[0] * b[1] - a[1] * b[0] > 0;
      });
      // The origin must be inside.
      *simple = p.size() >= 3;
      for (size_t i = 0; i < p.size(); ++i) {
        const P3 &a = p[i], &b = p[(i + 1) % p.size()];
        if (a[0] * b[1] - a[1] * b[0] <= 0) *simple = false;
      }
      l = p;
      break;
    }
    case 4: case 5: {  // Two chains that advance in x.
      std::vector<P3> top, bottom;
      long x = 0;
      l.push_back(IP(0, 0, 0));
      size_t n = big ? s.size(10, 50) : s.size(1, 10);
      bool cross = s.chance(1, 4);
      for (size_t i = 0; i < n; ++i) {
        x += s.chance(1, 6) ? 0 : 1 + s.draw(2);
        long y = s.range(cross ? -4 : 1, 5);
        if (s.flip()) top.push_back(IP(x, y, 0)); else bottom.push_back(IP(x, cross ? y : -y, 0));
      }
      x += 1;
      l.insert(l.end(), bottom.begin(), bottom.end());
      l.push_back(IP(x, cross ? 0 : s.range(-1, 1), 0));
      l.insert(l.end(), top.rbegin(), top.rend());
      *monotone_x = true;
      // Equal x in one chain may fold back.
      *simple = false;
      break;
    }
    case 6: {  // Comb or stairs.
      size_t n = big ? s.size(6, 20) : s.size(1, 6);
      long x = 0;
      Loop back;
      for (size_t i = 0; i < n; ++i) {
        long h = 1 + s.draw(4), w = 1 + s.draw(2);
        l.push_back(IP(x, h, 0));
        l.push_back(IP(x + w, h, 0));
        x += w;
        if (s.flip()) { l.push_back(IP(x, 0, 0)); x += s.draw(3); l.push_back(IP(x, 0, 0)); }
      }
      l.push_back(IP(x, -1, 0));
      l.push_back(IP(0, -1, 0));
      std::reverse(l.begin(), l.end());
      break;
    }
    case 7: {  // Spiral.
      long k = 1 + s.draw(big ? 10 : 3);
      Loop in;
      for (long i = 0; i < k; ++i) {
        l.push_back(IP(-2 * i, -2 * i, 0)); l.push_back(IP(2 * i + 2, -2 * i, 0));
        l.push_back(IP(2 * i + 2, 2 * i + 2, 0)); l.push_back(IP(-2 * i - 2, 2 * i + 2, 0));
      }
      for (size_t i = l.size(); i-- > 1;) in.push_back(l[i] + IP(s.range(0, 1), s.range(0, 1), 0));
      l.insert(l.end(), in.begin(), in.end());
      break;
    }
    default: l = GenOutline(s, big ? 40 : 12, s.flip()); *simple = true; break;
  }
  if (s.flip()) { for (P3& p : l) std::swap(p[0], p[1]); std::reverse(l.begin(), l.end()); *monotone_x = false; }
  // Decorations.
  if (!l.empty()) for (size_t k = 0; s.more(k, 0, 2); ++k) {
    size_t i = s.draw(l.size());
    P3 a = l[i], b = l[(i + 1) % l.size()];
    switch (s.draw(3)) {
      case 0: l.insert(l.begin() + i, a); break;
      case 1: {
        P3 m = (a + b) * Q(1, 2);
        if (!IsInt(m)) break;
        l.insert(l.begin() + i + 1, m);
        break;
      }
      default: {
        // Out and back.
        P3 x = s.flip() ? IP(s.range(-r, r), s.range(-r, r), 0) : a + (b - a) * Q(2);
        l.insert(l.begin() + i + 1, {x, a});
        *simple = false;
        *monotone_x = false;
        break;
      }
    }
  }
  if (!l.empty() && s.flip()) std::rotate(l.begin(), l.begin() + s.draw(l.size()), l.end());
  if (s.chance(1, 3)) std::reverse(l.begin(), l.end());
  return l;
}

template <class Factory> struct Collect : Factory {
  std::vector<typename Factory::ConvexPolygonRep> out;
 protected:
  void Emit(typename Factory::ConvexPolygonRep&& p) override { out.push_back(std::move(p)); }
};

// Edge data of a polygon, if it has any.
inline const Tag* TagOf(const Tag& t) { return &t; }
inline const Tag* TagOf(...) { return nullptr; }

struct PieceList {
  std::vector<Loop> loops;
  std::vector<Pl> planes;
};

// Every piece is a valid convex polygon with vertices (and their data) of the input.
template <class Poly> PieceList CheckPieces(const std::vector<Poly>& out, const Loop& in, bool data) {
  PieceList r;
  for (const Poly& p : out) {
    CheckPoly(p, false, "piece");
    Loop l = FromPoly(p);
    for (size_t i = 0; i < l.size(); ++i) {
      PBT_CHECK(std::find(in.begin(), in.end(), l[i]) != in.end(), "vertex " << l[i] << " of a piece is not in the input");
      if (data) {
        const Tag* t = TagOf(p.edge(i));
        PBT_CHECK(t->id >= 0 && t->id < (long)in.size() && in[t->id] == l[i], "vertex " << l[i] << " carries the data of input vertex " << t->id);
      }
    }
    r.loops.push_back(l);
    r.planes.push_back(ToPl(p.plane()));
  }
  return r;
}

}  // namespace gen
#endif
