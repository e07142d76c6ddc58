// V02: importing a dataset gives its oriented surface, quantised and flipped
// as asked.
#include "vtk.h"

#include "walnut/vtk_to_walnut_mesh.h"

using namespace gen;

namespace {

struct Data {
  std::vector<std::array<double, 3>> points;
  bool single = false;
  std::vector<Cell> polys, strips, lines, verts;
};

vtkSmartPointer<vtkPolyData> Make(const Data& d, bool narrow) {
  auto r = vtkSmartPointer<vtkPolyData>::New();
  auto p = vtkSmartPointer<vtkPoints>::New();
  if (!d.single) p->SetDataTypeToDouble();
  for (const auto& x : d.points) p->InsertNextPoint(x[0], x[1], x[2]);
  r->SetPoints(p);
  if (!d.polys.empty()) r->SetPolys(MakeCells(d.polys, narrow));
  if (!d.strips.empty()) r->SetStrips(MakeCells(d.strips, narrow));
  if (!d.lines.empty()) r->SetLines(MakeCells(d.lines));
  if (!d.verts.empty()) r->SetVerts(MakeCells(d.verts));
  return r;
}

Q Pow2(long e) {
  Q r(1);
  if (e >= 0) mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), e);
  else mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), -e);
  return r;
}

// The two candidates of rounding x to a multiple of 2^e: equal unless x is
// half way.
void Round(const Q& x, int e, Q* lo, Q* hi) {
  if (e == INT_MIN) { *lo = *hi = x; return; }
  Q u = Pow2(e), t = x / u, f(1, 2);
  Z a, b;
  Q l = t - f, h = t + f;
  mpz_cdiv_q(a.get_mpz_t(), l.get_num_mpz_t(), l.get_den_mpz_t());
  mpz_fdiv_q(b.get_mpz_t(), h.get_num_mpz_t(), h.get_den_mpz_t());
  *lo = Q(a) * u;
  *hi = Q(b) * u;
}

struct Imported {
  Surface surface;
  Chain rim;
  size_t facets = 0;
};

Imported Import(const Data& d, bool narrow, int e, bool flip, const std::set<P3>& allowed) {
  auto data = Make(d, narrow);
  auto mesh = walnut::VTKToWalnutMesh(data, e, flip);
  Imported r;
  for (const auto& p : mesh) {
    CheckPoly(p, false, "facet");
    Loop l = FromPoly(p);
    for (const P3& v : l) PBT_CHECK(allowed.count(v), "vertex " << v << " of a facet is no point of the dataset");
    r.surface.Add(l);
    r.rim.Add(l);
    ++r.facets;
  }
  return r;
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  Data d;
  // Exact integer geometry first.
  std::vector<P3> pts;
  std::vector<Loop> loops;
  auto add_loop = [&](const Loop& l) {
    Cell cell;
    for (const P3& p : l) {
      // Shared or own point.
      size_t k = std::find(pts.begin(), pts.end(), p) - pts.begin();
      if (k == pts.size() || s.chance(1, 8)) { k = pts.size(); pts.push_back(p); }
      cell.push_back((vtkIdType)k);
    }
    d.polys.push_back(cell);
  };
  // Strips over a band of points, often folded, sometimes with repeats.
  auto add_strip = [&]() {
    size_t n = s.size(0, 9);
    Cell cell;
    int style = (int)s.draw(3);
    P3 o = IP(s.range(-5, 5), s.range(-5, 5), s.range(-5, 5));
    for (size_t i = 0; i < n; ++i) {
      P3 p;
      if (style == 0) p = IP(s.range(-4, 4), s.range(-4, 4), s.range(-4, 4));
      else if (style == 1) p = o + IP((long)(i / 2) * 2, (i % 2) * 3, 0) + (s.chance(1, 4) ? IP(0, 0, s.range(-2, 2)) : P3());
      else p = o + IP((long)(i / 2), (i % 2), (i / 4));
      if (!cell.empty() && s.chance(1, 12)) { cell.push_back(s.pick(cell)); continue; }
      size_t k = std::find(pts.begin(), pts.end(), p) - pts.begin();
      if (k == pts.size()) pts.push_back(p);
      cell.push_back((vtkIdType)k);
    }
    d.strips.push_back(cell);
  };
  for (size_t k = 0; s.more(k, 0, 3); ++k) {
    bool a, b;
    Loop l = GenFlatOutline(s, &a, &b);
    switch (s.draw(4)) {
      case 0: break;
      case 1: for (P3& p : l) p[2] = p[0] * Q(2) - p[1]; break;
      case 2: for (P3& p : l) { std::swap(p[0], p[2]); if (s.chance(1, 6)) p[0] = p[0] + Q(s.range(-2, 2)); } break;
      default: for (P3& p : l) if (p[0] > 0) p[2] = p[2] + p[0]; break;
    }
    add_loop(l);
  }
  for (size_t k = 0; s.more(k, 0, 2); ++k) add_strip();
  // A closed shape that mixes both.
  if (s.chance(1, 4)) {
    long x = s.range(1, 4), y = s.range(1, 4), z = s.range(1, 4);
    size_t base = pts.size();
    for (int i = 0; i < 8; ++i) pts.push_back(IP((i & 1) * x, (i >> 1 & 1) * y, (i >> 2) * z));
    auto id = [&](int i) { return (vtkIdType)(base + i); };
    d.strips.push_back({id(0), id(4), id(1), id(5), id(3), id(7), id(2), id(6), id(0), id(4)});
    if (s.flip()) std::reverse(d.strips.back().begin(), d.strips.back().end());
    d.polys.push_back({id(4), id(5), id(7), id(6)});
    d.polys.push_back({id(0), id(2), id(3), id(1)});
    c.label("cuboid");
  }
  // Cells that are no facets.
  if (!pts.empty() && s.chance(1, 4)) d.polys.push_back(Cell(s.draw(3), (vtkIdType)s.draw(pts.size())));
  if (!pts.empty() && s.chance(1, 4)) d.lines.push_back({(vtkIdType)s.draw(pts.size()), (vtkIdType)s.draw(pts.size())});
  if (!pts.empty() && s.chance(1, 4)) d.verts.push_back({(vtkIdType)s.draw(pts.size())});

  // Coordinates: scaled by a power of two, moved, with or without noise.
  d.single = s.chance(1, 3);
  int scale = s.chance(1, 3) ? 0 : (int)s.range(-30, 10);
  if (!d.single && s.chance(1, 8)) scale = (int)s.range(-1040, 960);
  int e = INT_MIN;
  bool noise = false;
  switch (s.draw(5)) {
    case 0: break;
    case 1: e = scale + (int)s.range(-3, 0); break;
    case 2: e = scale + (int)s.range(-3, 4); noise = s.flip(); break;
    case 3: e = scale; noise = true; break;
    default: e = s.flip() ? scale - 60 : scale - (int)s.draw(1100); noise = s.flip(); break;
  }
  if (e != INT_MIN && e > 0) e = s.flip() ? 0 : e;
  for (const P3& p : pts) {
    std::array<double, 3> x;
    for (int k = 0; k < 3; ++k) {
      x[k] = std::ldexp(p[k].get_d(), scale);
      // Below half a unit of the quantisation in the third setting.
      if (noise && s.flip()) x[k] += std::ldexp((double)s.range(-1023, 1023), scale - 12);
      if (x[k] == 0 && s.chance(1, 8)) x[k] = -0.0;
      if (d.single) x[k] = (float)x[k];
    }
    d.points.push_back(x);
  }
  bool narrow = s.chance(1, 4), flip = s.flip();
  c << "exponent " << e << " flip " << flip << " points:\n";
  for (const auto& p : d.points) c << "  " << p[0] << "," << p[1] << "," << p[2] << "\n";
  for (const auto& list : {std::make_pair("poly", &d.polys), std::make_pair("strip", &d.strips)})
    for (const Cell& cell : *list.second) { c << list.first; for (vtkIdType v : cell) c << " " << v; c << "\n"; }

  // Where the points are expected.
  std::vector<P3> at;
  std::set<P3> allowed;
  for (const auto& p : d.points) {
    P3 q = ToP(HomoPoint3::FromDoubles(e, p[0], p[1], p[2]));
    for (int k = 0; k < 3; ++k) {
      Q lo, hi;
      Round(Q(p[k]), e, &lo, &hi);
      PBT_CHECK(q[k] == lo || q[k] == hi, "coordinate " << p[k] << " with exponent " << e << " became " << q[k] << ", not " << lo << " or " << hi);
      if (q[k] != Q(p[k])) c.label("moved by rounding");
    }
    at.push_back(q);
    allowed.insert(q);
  }
  Imported all = Import(d, narrow, e, flip, allowed);
  Imported back = Import(d, narrow, e, !flip, allowed);
  Surface total, flat;
  Chain rim;
  bool all_flat = true;
  auto loop_of = [&](const Cell& cell) { Loop l; for (vtkIdType v : cell) l.push_back(at[v]); return l; };
  long sign = flip ? -1 : 1;
  size_t cells = 0;
  for (const Cell& cell : d.polys) {
    Data one;
    one.points = d.points;
    one.single = d.single;
    one.polys.push_back(cell);
    Imported got = Import(one, narrow, e, flip, allowed);
    Loop l = loop_of(cell);
    Chain own = got.rim;
    own.Add(l, -sign);
    PBT_CHECK(own.empty(), "the facets of a polygon have another boundary than the polygon: " << own.Show());
    if (IsFlat(l)) {
      Surface f = got.surface;
      f.Add(l, -sign);
      PBT_CHECK(f.empty(), "the facets of a planar polygon do not cover it: " << f.Show());
      flat.Add(l, sign);
    } else {
      all_flat = false;
      c.label("bent polygon");
    }
    total.Add(got.surface, 1);
    if (got.facets) ++cells;
  }
  for (const Cell& cell : d.strips) {
    for (size_t i = 0; i + 2 < cell.size(); ++i) {
      Loop l = {at[cell[i]], at[cell[i + 1]], at[cell[i + 2]]};
      long times = i % 2 ? -sign : sign;
      total.Add(l, times);
      flat.Add(l, times);
      if (Cross(l[1] - l[0], l[2] - l[0]).IsZero()) c.label("degenerate strip triangle");
      else { ++cells; if (i > 0) c.label("strip triangle past the first"); }
    }
  }
  Surface diff = all.surface;
  diff.Add(total, -1);
  PBT_CHECK(diff.empty(), "the facets do not add up to the cells: " << diff.Show());
  Chain rims = all.rim;
  for (const auto& l : back.rim.lines) {
    std::map<Q, long>& m = rims.lines[l.first];
    for (const auto& x : l.second) if ((m[x.first] += x.second) == 0) m.erase(x.first);
    if (m.empty()) rims.lines.erase(l.first);
  }
  PBT_CHECK(rims.empty(), "flipping does not reverse the boundary: " << rims.Show());
  if (all_flat) {
    Surface r = back.surface;
    r.Add(flat, 1);
    PBT_CHECK(r.empty(), "flipping does not reverse the surface: " << r.Show());
  }
  if (cells >= 2) c.nontrivial();
}

}  // namespace

PBT_MAIN((pbt::Property{"V02", "at least two cells or strip triangles gave facets", Run, 20}))
