// P04: merging of two coplanar polygons along a common edge, for single pairs
// in arbitrary position and for meshes whose edges are linked.
#include "linked.h"

using namespace gen;
using walnut::AABBConvexPolygon;
using walnut::ConnectedPolygon;
using walnut::ConvexPolygon;
using walnut::MutableConvexPolygon;

namespace {

using TagPoly = MutableConvexPolygon<Tag>;
using BoxPoly = AABBConvexPolygon<ConvexPolygon<Tag>>;
using LinkPoly = ConnectedPolygon<ConvexPolygon<>, void, Tag>;
using LinkBoxPoly = ConnectedPolygon<AABBConvexPolygon<>, void, Tag>;

bool ConvexLoop(const Loop& l, const P3& n) {
  size_t k = l.size();
  if (k < 3 || AreaVec(l).IsZero() || !SameDir(AreaVec(l), n)) return false;
  Q turn = 0;
  for (size_t i = 0; i < k; ++i) {
    const P3 &a = l[i], &b = l[(i + 1) % k], &c = l[(i + 2) % k];
    if (a == b) return false;
    Q t = Dot(Cross(b - a, c - b), n);
    if (t < 0 || (t == 0 && Dot(b - a, c - b) < 0)) return false;
    // All points on the inner side of every edge: simple.
    for (const P3& p : l) if (Dot(Cross(b - a, p - a), n) < 0) return false;
  }
  return true;
}

void Unchanged(const char* what, const Piece& got, const Piece& was) {
  PBT_CHECK(got.l == was.l, what << ": declined merge changed " << was.l << " to " << got.l);
  for (size_t i = 0; i < was.tags.size(); ++i) PBT_CHECK(got.tags[i] == was.tags[i], what << ": declined merge changed edge data");
}

template <class Poly>
void CheckPair(const char* what, Poly& a, Poly& b, size_t i, size_t j, int dim, const Piece& ma, const Piece& mb,
               const Piece& want, bool yes) {
  Pl pa = ToPl(a.plane()), pb = ToPl(b.plane());
  bool got = a.TryMergePolygon(dim, i, b, j);
  PBT_CHECK(got == yes, what << ": merge answered " << got << " although the union is " << (yes ? "" : "not ") << "a convex polygon");
  PBT_CHECK(SameHalfSpace(ToPl(a.plane()), pa), what << ": plane changed");
  if (yes) {
    Piece r = PieceOf(a);
    PBT_CHECK(SameCycle(want, r), what << ": union is " << r << " instead of " << want);
    CheckPoly(a, false, what);
    PBT_CHECK(a.IsValidState(), what << ": IsValidState is false");
    PBT_CHECK(b.vertex_count() == 0, what << ": merged polygon keeps edges");
    CheckBoxIfAny(a, what, 0);
  } else {
    PBT_CHECK(SameHalfSpace(ToPl(b.plane()), pb), what << ": plane changed");
    Unchanged(what, PieceOf(a), ma);
    Unchanged(what, PieceOf(b), mb);
    CheckPoly(a, false, what);
    CheckPoly(b, false, what);
    CheckBoxIfAny(a, what, 0);
    CheckBoxIfAny(b, what, 0);
  }
}

void Pair(pbt::Src& s, pbt::Ctx& c) {
  Loop la = GenConvex(s, 8, s.chance(1, 3));
  P3 n = AreaVec(la);
  size_t na = la.size(), i = s.draw(na);
  P3 p = la[i], q = la[(i + 1) % na];
  P3 d = q - p, out = Cross(d, n);
  out = out * Q(Dot(d, d) / Dot(out, out));
  P3 a_prev = p - la[(i + na - 1) % na], a_next = la[(i + 2) % na] - q;
  static const Q ks[7] = {Q(0), Q(1, 2), Q(-1, 2), Q(1, 1000003), Q(-1, 1000003), Q(2), Q(-3)};
  // Directions of b away from p and from q. The sign of the bend at p decides
  // whether the union is convex there.
  auto away = [&](const P3& along, const P3& line, int convex) {
    P3 v;
    auto k = [&]() { Q x = ks[s.draw(7)]; return s.chance(2, 3) && x * convex < 0 ? Q(-x) : x; };
    switch (s.draw(6)) {
      case 0: case 1: v = along; break;
      case 2: case 3: v = along + d * k(); break;
      case 4: v = line; break;
      default: v = out + d * k(); break;
    }
    // Along the line only away from the edge.
    Q o = Dot(v, out);
    if (o < 0 || (o == 0 && !SameDir(v, line))) v = out;
    return v;
  };
  P3 v1 = away(a_prev, -d, 1), v2 = away(-a_next, d, -1);
  static const Q ls[5] = {Q(1), Q(1, 2), Q(2), Q(1, 3), Q(1, 7)};
  Q s1 = ls[s.draw(5)], s2 = ls[s.draw(5)];
  bool apex = s.flip();
  Q ah = ls[s.draw(5)];
  Loop lb;
  bool ok = false;
  for (int tries = 0; tries < 6 && !ok; ++tries) {
    P3 x1 = p + v1 * s1, x2 = q + v2 * s2;
    P3 top = (x1 + x2) * Q(1, 2) + out * ah;
    lb = {q, p, x1};
    if (apex) lb.push_back(top);
    lb.push_back(x2);
    ok = ConvexLoop(lb, n);
    if (!ok) { lb = {q, p, x1}; ok = ConvexLoop(lb, n); }
    if (!ok) { lb = {q, p, x2}; ok = ConvexLoop(lb, n); }
    s1 /= 2;
    s2 /= 2;
    if (tries == 2) apex = true;
  }
  if (!ok) throw pbt::Discard();
  int bend = s.draw(8);
  if (bend >= 6) {
    // Turned around the common edge.
    Q al, be;
    if (bend == 6) { al = Q(s.range(-2, 2)); be = s.flip() ? Q(1) : Frac(Z(1), GenZ(s, 1) * 2 + 1); if (s.flip()) be = -be; }
    else { al = -1; be = 0; }
    Q oo = Dot(out, out);
    P3 up = n * Q(oo / Dot(n, n));
    for (P3& x : lb) {
      Q t = Dot(x - p, out) / oo;
      x = x - out * t + (out * al + up * be) * t;
    }
    if (AreaVec(lb).IsZero()) throw pbt::Discard();
    c.label(bend == 6 ? "bent" : "folded over");
  }
  RepStyle st = GenRepStyle(s);
  size_t ra = st.rotate ? s.draw(la.size()) : 0, rb = st.rotate ? s.draw(lb.size()) : 0;
  std::rotate(la.begin(), la.begin() + ra, la.end());
  std::rotate(lb.begin(), lb.begin() + rb, lb.end());
  i = (i + na - ra) % na;
  size_t j = (lb.size() - rb) % lb.size();
  TagPoly a = MakePoly<TagPoly>(s, la, st), b = MakePoly<TagPoly>(s, lb, st);
  SetTags(a, 0);
  SetTags(b, 100);
  for (auto* x : {&a, &b}) for (size_t k = 0; k < x->vertex_count(); ++k) static_cast<Tag&>(x->edge(k)).sticky = s.chance(1, 12);
  Piece ma = PieceOf(a), mb = PieceOf(b), want = ma;
  c << "a: " << ma << " edge " << i << "\nb: " << mb << " edge " << j << "\n";
  int dropped = 0;
  bool yes = ModelMerge(want, i, mb, j, &dropped);
  std::vector<int> dims;
  for (int k = 0; k < 3; ++k) if (d[k] != 0) dims.push_back(k);
  int dim = s.pick(dims);
  using Plain = ConvexPolygon<Tag>;
  BoxPoly xa(static_cast<const Plain&>(a)), xb(static_cast<const Plain&>(b));
  CheckPair("polygon", a, b, i, j, dim, ma, mb, want, yes);
  CheckPair("polygon with box", xa, xb, i, j, dim, ma, mb, want, yes);
  c.nontrivial();
  c.label(yes ? "pair merged" : "pair declined");
  if (dropped == 1) c.label("one joint removed");
  if (dropped == 2) c.label("two joints removed");
}

template <class Poly> void Mesh_(pbt::Src& s, pbt::Ctx& c) {
  bool closed;
  Mesh m = GenPatched(s, &closed);
  if (s.chance(1, 3)) {
    for (size_t k = 0; s.more(k, 0, 3) && m.size() > 1; ++k) { m.erase(m.begin() + s.draw(m.size())); closed = false; }
  }
  for (const Loop& l : m) c << l << "\n";
  RepStyle st = GenRepStyle(s);
  Linked<Poly> w;
  w.store.resize(1);
  for (const Loop& l : m) {
    Loop r = l;
    if (st.rotate) std::rotate(r.begin(), r.begin() + s.draw(r.size()), r.end());
    w.store[0].push_back(MakePoly<Poly>(s, r, st));
  }
  ConnectAll(s, w.store[0], s.chance(1, 4));
  for (Poly& p : w.store[0]) for (size_t k = 0; k < p.vertex_count(); ++k) {
    static_cast<Tag&>(p.edge(k)) = Tag();
    static_cast<Tag&>(p.edge(k)).sticky = s.chance(1, 40);
  }
  w.Adopt([](const Poly&) { return true; });
  w.Check("after connecting", true);
  int merges = 0, declined = 0;
  for (size_t step = 0; s.more(step, 1, 30); ++step) {
    auto pairs = w.LinkedPairs(!s.chance(1, 6));
    if (pairs.empty()) continue;
    auto pr = s.pick(pairs);
    c << "merge along #" << pr.first << " #" << pr.second << "\n";
    if (w.Merge(s, pr.first, pr.second)) {
      w.Check("after a merge", step % 4 == 0);
      ++merges;
    } else {
      w.Check("after a declined merge", step % 4 == 0);
      ++declined;
    }
  }
  w.Check("at the end", true);
  if (merges >= 1) c.nontrivial();
  if (merges) c.label("linked merge");
  if (merges >= 5) c.label("5 or more linked merges");
  if (declined) c.label("linked merge declined");
  if (w.joints) c.label("linked joint removed");
  if (!closed) c.label("open surface");
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  switch (s.draw(4)) {
    case 0: case 1: Pair(s, c); break;
    case 2: Mesh_<LinkPoly>(s, c); break;
    default: Mesh_<LinkBoxPoly>(s, c); break;
  }
}

}  // namespace

PBT_MAIN((pbt::Property{"P04", "a pair of polygons, or at least one merge in a linked mesh", Run, 20}))
