// V01: the VTK filter from datasets to dataset, over repeated updates.
#include "boolean.h"
#include "structure.h"
#include "vtk.h"

#include <cmath>
#include <vtkCallbackCommand.h>
#include <vtkCommand.h>

#include "walnut/vtkWalnutBooleanFilter.h"

using namespace gen;
using walnut::vtkWalnutBooleanFilter;

namespace {

struct Input {
  Mesh cells;                      // Loops on the integer grid, not all convex.
  vtkSmartPointer<vtkPolyData> data;
  std::vector<P3> points;          // What was put into the dataset.
  std::vector<Cell> polys, strips;
  bool has_strips = false;
};

// Signed triangles with the same sum as the loops.
Mesh Fan(const Mesh& m) {
  Mesh r;
  for (const Loop& l : m) for (size_t i = 1; i + 1 < l.size(); ++i) {
    Loop t{l[0], l[i], l[i + 1]};
    if (!AreaVec(t).IsZero()) r.push_back(t);
  }
  return r;
}

// Right prism over a simple outline that need not be convex.
Mesh NonConvexPrism(pbt::Src& s) {
  bool simple, mono;
  Loop l = GenFlatOutline(s, &simple, &mono);
  Loop clean;
  for (const P3& p : l) if (clean.empty() || clean.back() != p) clean.push_back(p);
  while (clean.size() > 1 && clean.back() == clean.front()) clean.pop_back();
  if (clean.size() < 3 || !IsSimpleFlat(clean)) throw pbt::Discard();
  l = clean;
  if (Dot(AreaVec(l), IP(0, 0, 1)) < 0) std::reverse(l.begin(), l.end());
  P3 h = IP(s.range(-1, 1), s.range(-1, 1), 1 + (long)s.draw(4));
  Mesh m;
  Loop top, bottom(l.rbegin(), l.rend());
  for (const P3& p : l) top.push_back(p + h);
  m.push_back(top);
  m.push_back(bottom);
  for (size_t i = 0; i < l.size(); ++i) { const P3 &a = l[i], &b = l[(i + 1) % l.size()]; m.push_back({a, b, b + h, a + h}); }
  int turn = (int)s.draw(3);
  P3 at = GridPoint(s);
  for (Loop& f : m) for (P3& p : f) { P3 q; for (int k = 0; k < 3; ++k) q[(k + turn) % 3] = p[k]; p = q + at; }
  return m;
}

struct Scale {
  int unit = 0;       // coordinates are multiples of 2^unit
  int exponent = INT_MIN;
  bool single = false, noise = false;
};

Q Unit(int e) { return e >= 0 ? Q(Pow2(e)) : Q(1) / Q(Pow2(-e)); }

void Fill(pbt::Src& s, Input& in, const Scale& sc) {
  auto points = vtkSmartPointer<vtkPoints>::New();
  if (!sc.single) points->SetDataTypeToDouble();
  std::map<P3, vtkIdType> known;
  in.polys.clear();
  in.strips.clear();
  in.points.clear();
  bool share = !s.chance(1, 3);
  auto id = [&](const P3& p) -> vtkIdType {
    auto it = known.find(p);
    if (it != known.end() && share && !s.chance(1, 16)) return it->second;
    double x[3];
    for (int k = 0; k < 3; ++k) {
      x[k] = std::ldexp(p[k].get_d(), sc.unit);
      // Less than half of what is rounded away.
      if (sc.noise) x[k] += std::ldexp((double)s.range(-120, 120), sc.exponent - 8);
    }
    vtkIdType i = points->InsertNextPoint(x);
    known[p] = i;
    // What is stored must stand for p and no other point.
    points->GetPoint(i, x);
    for (int k = 0; k < 3; ++k) {
      Q off = abs(Q(x[k]) - p[k] * Unit(sc.unit));
      if (sc.exponent == INT_MIN ? off != 0 : off * 2 >= Unit(sc.exponent)) throw pbt::Discard();
    }
    return i;
  };
  for (const Loop& l : in.cells) {
    Cell c;
    for (const P3& p : l) c.push_back(id(p));
    // Only convex cells may be divided in any way.
    bool convex = true;
    P3 n = AreaVec(l);
    for (size_t i = 0; i < l.size(); ++i) if (Dot(n, Cross(l[(i + 1) % l.size()] - l[i], l[(i + 2) % l.size()] - l[(i + 1) % l.size()])) < 0) convex = false;
    int how = convex ? (int)s.draw(5) : 0;
    if (how == 3) {
      for (size_t i = 1; i + 1 < c.size(); ++i) in.polys.push_back({c[0], c[i], c[i + 1]});
    } else if (how == 4) {
      Cell t{c[0], c[1]};
      size_t lo = 2, hi = c.size() - 1;
      for (bool back = true; lo <= hi; back = !back) t.push_back(back ? c[hi--] : c[lo++]);
      in.strips.push_back(t);
      in.has_strips = true;
    } else {
      in.polys.push_back(c);
    }
  }
  s.shuffle(in.polys);
  if (!in.data) in.data = vtkSmartPointer<vtkPolyData>::New();
  in.data->SetPoints(points);
  in.data->SetPolys(MakeCells(in.polys));
  in.data->SetStrips(MakeCells(in.strips));
  in.data->Modified();
  in.points = PointsOf(in.data);
}

struct Errors {
  size_t count = 0;
  std::string text;
  static void Call(vtkObject*, unsigned long, void* self, void* data) {
    Errors* e = static_cast<Errors*>(self);
    ++e->count;
    if (data) e->text = static_cast<const char*>(data);
  }
};

void Run(pbt::Src& s, pbt::Ctx& c) {
  Scale sc;
  switch (s.draw(4)) {
    case 0: break;
    case 1: sc.unit = (int)s.range(-40, 20); break;
    case 2: sc.unit = (int)s.range(-40, 20); sc.exponent = std::min(0, sc.unit - (int)s.draw(4)); break;
    default: sc.unit = (int)s.range(-40, 3); sc.exponent = std::min(0, sc.unit - (int)s.draw(3)); sc.noise = true; break;
  }
  Affine map = GenAffine(s, true);
  auto small = [&](const Affine& a, long limit) {
    for (int i = 0; i < 3; ++i) { if (abs(a.t[i]) > limit) return false; for (int j = 0; j < 3; ++j) if (abs(a.m[i][j]) > limit) return false; }
    return true;
  };
  if (!small(map, 1L << 24)) map = Identity();
  sc.single = small(map, 64) && s.chance(1, 3);
  if (sc.noise && sc.unit > 0 && !small(map, 64)) sc.unit = 0;

  std::vector<Input> inputs;
  std::vector<Mesh> earlier;
  // Room for points that divide edges.
  Q fine(s.flip() ? 1 : 360);
  auto fresh = [&]() {
    Mesh m, r;
    for (int tries = 0; tries < 5; ++tries) {
      switch (s.draw(6)) {
        case 0: m = NonConvexPrism(s); c.label("non-convex cells"); break;
        default: m = GenOperand(s, earlier); break;
      }
      r = m;
      bool whole = true;
      for (Loop& l : r) for (P3& p : l) { p = p * fine; whole = whole && IsInt(p); }
      if (whole) break;
      if (tries == 4) throw pbt::Discard();
    }
    earlier.push_back(m);
    return map(r);
  };
  size_t n = 1 + s.draw(4);
  for (size_t i = 0; i < n; ++i) {
    inputs.push_back({});
    inputs.back().cells = fresh();
    if (inputs.back().cells.empty() && s.flip()) inputs.back().data = vtkSmartPointer<vtkPolyData>::New();
    else Fill(s, inputs.back(), sc);
  }
  auto filter = vtkSmartPointer<vtkWalnutBooleanFilter>::Take(vtkWalnutBooleanFilter::New());
  Errors errors;
  auto watch = vtkSmartPointer<vtkCallbackCommand>::New();
  watch->SetCallback(Errors::Call);
  watch->SetClientData(&errors);
  filter->AddObserver(vtkCommand::ErrorEvent, watch);
  std::vector<size_t> connected;
  auto connect = [&]() {
    filter->RemoveAllInputConnections(0);
    for (size_t i : connected) filter->AddInputDataObject(0, inputs[i].data);
  };
  for (size_t i = 0; i < n; ++i) connected.push_back(i);
  connect();
  int op = 0;
  auto set_op = [&]() {
    op = (int)s.draw(3);
    if (s.flip()) filter->SetOperation(op == 0 ? vtkWalnutBooleanFilter::OperationType::VTK_UNION : op == 1 ? vtkWalnutBooleanFilter::OperationType::VTK_INTERSECTION : vtkWalnutBooleanFilter::OperationType::VTK_DIFFERENCE);
    else if (op == 0) filter->SetOperationToUnion();
    else if (op == 1) filter->SetOperationToIntersection();
    else filter->SetOperationToDifference();
    PBT_CHECK((int)filter->GetOperation() == op, "operation " << op << " reads back as " << (int)filter->GetOperation());
  };
  auto set_exponent = [&]() {
    filter->SetMinExponent(sc.exponent);
    PBT_CHECK(filter->GetMinExponent() == sc.exponent, "exponent " << sc.exponent << " reads back as " << filter->GetMinExponent());
  };
  set_exponent();
  if (s.flip()) set_op();
  size_t rounds = s.flip() ? 1 : s.size(1, 3);
  for (size_t round = 0; round < rounds; ++round) {
    if (round > 0) {
      switch (s.draw(4)) {
        case 0: {
          Input& in = inputs[s.draw(n)];
          in.cells = fresh();
          Fill(s, in, sc);
          c.label("input changed");
          break;
        }
        case 1:
          s.shuffle(connected);
          if (s.flip() && connected.size() > 1) connected.pop_back();
          else if (s.flip() && connected.size() < 4) connected.push_back(s.draw(n));
          connect();
          c.label("connections changed");
          break;
        case 2:
          if (sc.noise) { for (Input& in : inputs) Fill(s, in, sc); break; }
          // Rounding to the grid or to a finer one changes nothing.
          sc.exponent = s.flip() ? INT_MIN : std::min(0, sc.unit - (int)s.draw(5));
          set_exponent();
          break;
        default: break;
      }
      if (s.flip()) set_op();
    }
    c << (op == 0 ? "union" : op == 1 ? "intersection" : "difference") << " unit 2^" << sc.unit << " exponent " << sc.exponent << (sc.noise ? " noise" : "") << (sc.single ? " float" : "") << "\n";
    for (size_t k : connected) c << "input " << (long)k << ": " << Show(inputs[k].cells);
    if (s.flip()) filter->Update(); else filter->GetOutputPort(0), filter->Update(0);
    vtkPolyData* out = filter->GetOutput();
    PBT_CHECK(errors.count == 0, "the filter reported: " << errors.text);

    // The model.
    OpSet ops;
    Expr e;
    e.kind = op == 0 ? Expr::kOrIds : op == 1 ? Expr::kAndIds : Expr::kSubIds;
    std::vector<Pl> planes;
    Q size = 0;
    Q unit = Unit(sc.unit);
    std::set<std::vector<Q>> seen;
    for (size_t k = 0; k < connected.size(); ++k) {
      Mesh m = Fan(inputs[connected[k]].cells);
      for (Loop& l : m) for (P3& p : l) { p = p * unit; for (int d = 0; d < 3; ++d) if (abs(p[d]) > size) size = abs(p[d]); }
      for (const Loop& l : m) {
        Pl h;
        h.n = AreaVec(l);
        h.d = Dot(h.n, l[0]);
        if (seen.insert(Surface::Key(h.n, l[0])).second) planes.push_back(h);
      }
      if (op == 2 && k > 0) m = Flip(m);
      e.ids.push_back(ops.meshes.size());
      ops.meshes.push_back(m);
    }
    ops.Prepare();

    // The dataset.
    std::vector<P3> at;
    for (vtkIdType i = 0; i < out->GetNumberOfPoints(); ++i) {
      double x[3];
      out->GetPoint(i, x);
      PBT_CHECK(std::isfinite(x[0]) && std::isfinite(x[1]) && std::isfinite(x[2]), "a point is not finite");
      at.push_back(QP(x));
    }
    std::vector<Cell> cells = CellsOf(out->GetPolys());
    PBT_CHECK(out->GetNumberOfCells() == (vtkIdType)cells.size(), "the output has other cells than polygons");
    std::map<std::pair<vtkIdType, vtkIdType>, long> edges;
    Mesh raw, result;
    for (const Cell& cell : cells) {
      PBT_CHECK(cell.size() >= 3, "a cell has " << cell.size() << " points");
      Loop l;
      for (size_t i = 0; i < cell.size(); ++i) {
        vtkIdType a = cell[i], b = cell[(i + 1) % cell.size()];
        PBT_CHECK(a >= 0 && a < (vtkIdType)at.size(), "cell uses point " << a << " of " << at.size());
        PBT_CHECK(a != b, "cell repeats point " << a);
        ++edges[{a, b}];
        --edges[{b, a}];
        l.push_back(at[a]);
      }
      raw.push_back(l);
    }
    for (const auto& x : edges) PBT_CHECK(x.second == 0, "the edge between points " << x.first.first << " and " << x.first.second << " is not closed");
    result = Fan(raw);
    Winder winder(result);
    bool in_seen = false, out_seen = false;
    Q near = size / Q(Pow2(44));
    auto judge = [&](const P3& q) {
      // Far from every plane compared to the rounding of the output.
      for (const Pl& h : planes) { Q v = h.Eval(q); if (v * v <= near * near * Dot(h.n, h.n)) return; }
      std::vector<int> w;
      int r;
      if (!ops.At(q, &w) || !winder.Wind(q, &r)) return;
      bool want = EvalAt(e, w);
      (want ? in_seen : out_seen) = true;
      c.count(1);
      std::ostringstream ws;
      for (int x : w) ws << " " << x;
      PBT_CHECK(r == int(want), "round " << round << " point (" << q[0].get_d() << "," << q[1].get_d() << "," << q[2].get_d() << "): winding number of the output is "
                << r << ", expected " << want << "; inputs" << ws.str() << "\noutput:\n" << Show(raw));
    };
    std::vector<const Mesh*> all;
    for (const Mesh& m : ops.meshes) all.push_back(&m);
    all.push_back(&result);
    Prober pr(s, all);
    if (!pr.empty()) {
      for (int i = 0; i < 8; ++i) judge(pr.Random());
      for (size_t i = 0; i < 20; ++i) {
        const Mesh& m = *all[i % all.size()];
        if (m.empty()) continue;
        const Loop& l = s.pick(m);
        P3 mid = InnerPoint(s, l), nrm = AreaVec(l);
        // Step of about size * 2^-30 in the direction of the normal.
        Q big = std::max(std::max(abs(nrm[0]), abs(nrm[1])), abs(nrm[2]));
        P3 step = nrm * (size / big / Q(Pow2(s.flip() ? 30 : 40)));
        judge(mid + step);
        judge(mid - step);
      }
    }
    if (in_seen && out_seen && connected.size() >= 2) { c.nontrivial(); if (round > 0) c.label("repeated update judged"); }
    if (raw.empty()) c.label("empty output");
    // Inputs stay as they were.
    for (const Input& in : inputs) if (!in.polys.empty() || !in.strips.empty()) {
      PBT_CHECK(PointsOf(in.data) == in.points && CellsOf(in.data->GetPolys()) == in.polys && CellsOf(in.data->GetStrips()) == in.strips, "an input was changed");
      if (in.has_strips) c.label("strips");
    }
  }
  if (sc.noise) c.label("noise rounded away");
  if (sc.single) c.label("float points");
}

}  // namespace

PBT_MAIN((pbt::Property{"V01", "two or more inputs and query points both inside and outside of the output", Run, 60}))
