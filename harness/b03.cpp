// B03: boolean results related across presentations and set identities.
#include "boolean.h"

using namespace gen;

// Area of the surface per plane, signed by the facing; planes whose areas
// cancel are left out. Equal for meshes that bound the same solid.
struct Signature {
  std::map<std::vector<Q>, Q> area;
  Q volume = 0;
  bool operator==(const Signature& o) const { return area == o.area && volume == o.volume; }
};
static Signature Sign(const Mesh& m) {
  Signature r;
  r.volume = Volume6(m);
  for (const Loop& l : m) {
    P3 n = AreaVec(l);
    int k = n[0] != 0 ? 0 : n[1] != 0 ? 1 : 2;
    if (n[k] == 0) continue;
    Q f = Q(1) / n[k];
    P3 u = n * f;
    std::vector<Q> key{Q(k), u[0], u[1], u[2], Dot(u, l[0])};
    Q& a = r.area[key];
    a += n[k];
    if (a == 0) r.area.erase(key);
  }
  return r;
}
static std::ostream& operator<<(std::ostream& o, const Signature& s) {
  o << "volume/6 " << s.volume << "\n";
  for (auto& e : s.area) {
    o << "  plane (" << e.first[1] << "," << e.first[2] << "," << e.first[3] << ") . x = " << e.first[4] << " area " << e.second << "\n";
  }
  return o;
}

struct World {
  pbt::Src& s;
  size_t runs = 0;
  Mesh Run(const std::vector<Mesh>& ops, const Expr& e) {
    RepStyle st = GenRepStyle(s);
    size_t kd = GenKd(s);
    BSPTree<> tree;
    for (const Mesh& m : ops) {
      BSPContentId id = tree.AllocateId();
      tree.AddContents(id, ToPolys(s, m, st));
    }
    BoolRun r = RunConnecting(tree, e.Filter(), kd);
    PBT_CHECK(r.errors.empty(), "error for closed operands: " << r.errors[0]);
    ++runs;
    return FromPolys(r.polys);
  }
};
static Expr Leaf(Expr::Kind k, BSPContentId id) { Expr e; e.kind = k; e.id = id; return e; }
static Expr Pos(BSPContentId id) { return Leaf(Expr::kPos, id); }
static Expr Inv(BSPContentId id) { return Leaf(Expr::kInv, id); }
static Expr Op(Expr::Kind k, Expr a, Expr b) { Expr e; e.kind = k; e.kids = {a, b}; return e; }
static Expr And(Expr a, Expr b) { return Op(Expr::kAnd, a, b); }
static Expr Or(Expr a, Expr b) { return Op(Expr::kOr, a, b); }
static Expr Sub(Expr a, Expr b) { return Op(Expr::kSub, a, b); }
static Expr Ids(Expr::Kind k, std::vector<BSPContentId> ids) { Expr e; e.kind = k; e.ids = ids; return e; }

#define SAME(a, b, what) do { \
    Signature sa_ = Sign(a), sb_ = Sign(b); \
    PBT_CHECK(sa_ == sb_, what << " differ:\n" << sa_ << "and\n" << sb_); \
  } while (0)

// Another presentation of the same surface.
static Mesh Present(pbt::Src& s, const Mesh& m) {
  Mesh r = m;
  if (s.flip()) r = Subdivide(s, r, s.chance(1, 10) ? 50 : 8);
  if (s.chance(1, 8) && !r.empty()) {
    // A facet and its reverse on top of the surface add nothing.
    Loop l = s.pick(r);
    r.push_back(l);
    std::reverse(l.begin(), l.end());
    r.push_back(l);
  }
  s.shuffle(r);
  return r;
}

static void Run(pbt::Src& s, pbt::Ctx& c) {
  World w{s};
  std::vector<Mesh> o;
  for (int i = 0; i < 3; ++i) o.push_back(GenOperand(s, o));
  Affine map = GenAffine(s);
  bool mapped_before = s.flip();
  if (mapped_before) for (Mesh& m : o) m = map(m);
  for (size_t i = 0; i < 3; ++i) c << "operand " << i << " (" << o[i].size() << " facets)\n" << Show(o[i]);
  const Mesh &A = o[0], &B = o[1], &C = o[2];
  std::vector<Mesh> ab{A, B}, abc{A, B, C};
  Mesh fB = Flip(B), fA = Flip(A), fC = Flip(C);
  bool interesting = false;
  auto seen = [&](const Mesh& r) { if (r.size() >= 4) interesting = true; };
  int rel = s.draw(9);
  c << "relation " << rel << "\n";
  switch (rel) {
    case 0: {
      Mesh u = w.Run(ab, Or(Pos(0), Pos(1))), x = w.Run(ab, And(Pos(0), Pos(1)));
      Mesh a = w.Run({A}, Pos(0)), b = w.Run({B}, Pos(0));
      Mesh d = w.Run({A, fB}, Sub(Pos(0), Inv(1))), e = w.Run({B, fA}, Sub(Pos(0), Inv(1)));
      Q vu = Volume6(u), vx = Volume6(x), va = Volume6(a), vb = Volume6(b);
      PBT_CHECK(vu + vx == va + vb, "inclusion-exclusion: " << vu << " + " << vx << " and " << va << " + " << vb);
      PBT_CHECK(Volume6(d) == va - vx, "volume of A - B: " << Volume6(d) << ", A " << va << ", A and B " << vx);
      PBT_CHECK(Volume6(e) == vb - vx, "volume of B - A: " << Volume6(e) << ", B " << vb << ", A and B " << vx);
      // The same for the surfaces.
      Mesh ux = u; Append(ux, x);
      Mesh sum = a; Append(sum, b);
      SAME(ux, sum, "union plus intersection and A plus B");
      Mesh dx = d; Append(dx, x);
      SAME(dx, a, "difference plus intersection and A");
      c.label("inclusion-exclusion");
      if (vx != 0) seen(x);
      break;
    }
    case 1: {
      Expr e = GenExpr(s, 3, 2, true, false);
      c << "expr " << e << "\n";
      Mesh r = w.Run(abc, e);
      std::vector<Mesh> p;
      for (const Mesh& m : abc) p.push_back(Present(s, m));
      Mesh r2 = w.Run(p, e);
      SAME(r, r2, "results of two presentations");
      c.label("presentation");
      seen(r);
      break;
    }
    case 2: {
      Mesh r = w.Run(ab, Or(Pos(0), Pos(1))), r2 = w.Run({B, A}, Ids(Expr::kOrIds, {0, 1}));
      SAME(r, r2, "A or B and B or A");
      Mesh x = w.Run(ab, Ids(Expr::kAndIds, {0, 1})), x2 = w.Run({B, A}, And(Pos(0), Pos(1)));
      SAME(x, x2, "A and B and B and A");
      c.label("exchange");
      seen(x); seen(r);
      break;
    }
    case 3: {
      Mesh a = w.Run({A}, Pos(0));
      std::vector<Mesh> aa{Present(s, A), Present(s, A)};
      SAME(a, w.Run(aa, Or(Pos(0), Pos(1))), "A and A or A");
      SAME(a, w.Run(aa, And(Pos(0), Pos(1))), "A and A and A");
      Mesh z = w.Run({A, fA}, Sub(Pos(0), Inv(1)));
      SAME(z, Mesh(), "A - A and nothing");
      SAME(a, w.Run({A, Mesh()}, Or(Pos(0), Pos(1))), "A or nothing and A");
      SAME(Mesh(), w.Run({A, Mesh()}, And(Pos(0), Pos(1))), "A and nothing and nothing");
      SAME(a, w.Run({A, Mesh()}, Sub(Pos(0), Inv(1))), "A - nothing and A");
      SAME(Mesh(), w.Run({Mesh(), fA}, Sub(Pos(0), Inv(1))), "nothing - A and nothing");
      SAME(a, w.Run({Mesh(), A, Mesh()}, Ids(Expr::kOrIds, {0, 1, 2})), "nothing or A and A");
      SAME(a, w.Run({A, Mesh(), Mesh()}, Ids(Expr::kSubIds, {0, 1, 2})), "A - nothing and A");
      c.label("idempotence and empty operands");
      seen(a);
      break;
    }
    case 4: {
      Mesh l = w.Run(abc, And(Pos(0), Or(Pos(1), Pos(2))));
      Mesh r = w.Run(abc, Or(And(Pos(0), Pos(1)), And(Pos(0), Pos(2))));
      SAME(l, r, "sides of the distributive law");
      Mesh l2 = w.Run(abc, Or(Pos(0), And(Pos(1), Pos(2))));
      Mesh r2 = w.Run(abc, And(Or(Pos(0), Pos(1)), Or(Pos(0), Pos(2))));
      SAME(l2, r2, "sides of the dual distributive law");
      c.label("distributive");
      seen(l); seen(l2);
      break;
    }
    case 5: {
      // A - (B or C) = (A - B) - C = (A - B) and (A - C).
      std::vector<Mesh> n{A, fB, fC};
      Mesh l = w.Run(n, Sub(Pos(0), And(Inv(1), Inv(2))));
      Mesh m = w.Run(n, Sub(Sub(Pos(0), Inv(1)), Inv(2)));
      Mesh r = w.Run(n, And(Sub(Pos(0), Inv(1)), Sub(Pos(0), Inv(2))));
      Mesh i = w.Run(n, Ids(Expr::kSubIds, {0, 1, 2}));
      Mesh j = w.Run(n, Ids(Expr::kSubIds, {0, 2, 1}));
      SAME(l, m, "A - (B or C) and (A - B) - C");
      SAME(l, r, "A - (B or C) and (A - B) and (A - C)");
      SAME(l, i, "A - (B or C) and A - B - C by ids");
      SAME(l, j, "A - (B or C) and A - C - B by ids");
      c.label("difference");
      seen(l);
      break;
    }
    case 6: {
      Expr e = GenExpr(s, 3, 2, true, false);
      c << "expr " << e << "\n";
      Affine f = GenAffine(s, true);
      Mesh r = w.Run(abc, e);
      std::vector<Mesh> m;
      for (const Mesh& x : abc) m.push_back(f(x));
      Mesh r2 = w.Run(m, e);
      Q det = f.det();
      if (det < 0) det = -det;
      PBT_CHECK(Volume6(r2) == Volume6(r) * det, "volume of the mapped operands' result " << Volume6(r2) << ", determinant " << det << " of the original " << Volume6(r));
      SAME(f(r), r2, "mapped result and result of the mapped operands");
      c.label("affine map");
      seen(r);
      break;
    }
    case 7: {
      // The order of the ids and additional unused operands.
      Expr e = GenExpr(s, 3, 2, true, false);
      c << "expr " << e << "\n";
      std::vector<size_t> perm{0, 1, 2};
      s.shuffle(perm);
      std::vector<Mesh> m(5);
      size_t off = s.draw(3);
      std::function<void(Expr&)> ren = [&](Expr& x) {
        x.id = perm[x.id % 3] + off;
        for (auto& i : x.ids) i = perm[i] + off;
        for (auto& k : x.kids) ren(k);
      };
      Expr e2 = e;
      ren(e2);
      for (size_t i = 0; i < 3; ++i) m[perm[i] + off] = abc[i];
      for (Mesh& x : m) if (x.empty() && s.flip()) x = mapped_before ? map(GenShape(s)) : GenShape(s);
      for (size_t i = 0; i < 3; ++i) m[perm[i] + off] = abc[i];
      Mesh r = w.Run(abc, e), r2 = w.Run(m, e2);
      SAME(r, r2, "results after renumbering the operands");
      c.label("renumbered");
      seen(r);
      break;
    }
    default: {
      // Absorption.
      Mesh a = w.Run({A}, Pos(0));
      SAME(a, w.Run(ab, Or(Pos(0), And(Pos(0), Pos(1)))), "A or (A and B) and A");
      SAME(a, w.Run(ab, And(Pos(0), Or(Pos(0), Pos(1)))), "A and (A or B) and A");
      Mesh x = w.Run(ab, And(Pos(0), Pos(1)));
      // Both halves of A cut by B.
      Mesh d = w.Run({A, fB}, Sub(Pos(0), Inv(1)));
      Append(x, d);
      SAME(a, x, "A and its parts");
      c.label("absorption");
      seen(a);
      break;
    }
  }
  c.count(w.runs);
  if (interesting) c.nontrivial();
}

PBT_MAIN((pbt::Property{"B03", "a compared result has at least 4 facets", Run, 90}))
