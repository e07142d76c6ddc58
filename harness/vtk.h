// Exact oriented surfaces as sums of planar loops, and datasets.
#ifndef VERIF_VTK_H
#define VERIF_VTK_H

#include "outline.h"

#include <vtkCellArray.h>
#include <vtkIdList.h>
#include <vtkPoints.h>
#include <vtkPolyData.h>
#include <vtkSmartPointer.h>

namespace gen {

// A sum of oriented flat loops: per plane, the boundary of the sum in that
// plane, which determines the sum.
struct Surface {
  std::map<std::vector<Q>, Chain> planes;
  static std::vector<Q> Key(const P3& n, const P3& p) {
    int k = n[0] != 0 ? 0 : n[1] != 0 ? 1 : 2;
    return {n[0] / n[k], n[1] / n[k], n[2] / n[k], Dot(n, p) / n[k]};
  }
  // l must be flat. Loops on one line add nothing.
  void Add(const Loop& l, long times = 1) {
    P3 n;
    for (size_t i = 2; i < l.size() && n.IsZero(); ++i) for (size_t j = 1; j < i && n.IsZero(); ++j) n = Cross(l[j] - l[0], l[i] - l[0]);
    if (n.IsZero()) return;
    std::vector<Q> k = Key(n, l[0]);
    Chain& c = planes[k];
    c.Add(l, times);
    if (c.empty()) planes.erase(k);
  }
  void Add(const Surface& o, long times) {
    for (const auto& p : o.planes) {
      Chain& c = planes[p.first];
      for (const auto& line : p.second.lines) {
        std::map<Q, long>& m = c.lines[line.first];
        for (const auto& x : line.second) if ((m[x.first] += times * x.second) == 0) m.erase(x.first);
        if (m.empty()) c.lines.erase(line.first);
      }
      if (c.empty()) planes.erase(p.first);
    }
  }
  bool empty() const { return planes.empty(); }
  std::string Show() const {
    std::ostringstream o;
    for (const auto& p : planes) o << "plane (" << p.first[0] << "," << p.first[1] << "," << p.first[2] << ")=" << p.first[3] << " {" << p.second.Show() << "} ";
    return o.str();
  }
};

inline bool IsFlat(const Loop& l) {
  P3 n;
  for (size_t i = 2; i < l.size() && n.IsZero(); ++i) for (size_t j = 1; j < i && n.IsZero(); ++j) n = Cross(l[j] - l[0], l[i] - l[0]);
  for (const P3& p : l) if (Dot(n, p - l[0]) != 0) return false;
  return true;
}

using Cell = std::vector<vtkIdType>;

inline vtkSmartPointer<vtkCellArray> MakeCells(const std::vector<Cell>& cells, bool narrow = false) {
  auto a = vtkSmartPointer<vtkCellArray>::New();
  if (narrow) a->Use32BitStorage();
  for (const Cell& c : cells) a->InsertNextCell((vtkIdType)c.size(), c.data());
  return a;
}

inline P3 QP(const double* d) { return P3(Q(d[0]), Q(d[1]), Q(d[2])); }

// The points of a dataset as the dataset reports them.
inline std::vector<P3> PointsOf(vtkPolyData* d) {
  std::vector<P3> r;
  for (vtkIdType i = 0; i < d->GetNumberOfPoints(); ++i) {
    double x[3];
    d->GetPoint(i, x);
    r.push_back(QP(x));
  }
  return r;
}
inline std::vector<Cell> CellsOf(vtkCellArray* a) {
  std::vector<Cell> r;
  auto ids = vtkSmartPointer<vtkIdList>::New();
  for (vtkIdType i = 0; i < a->GetNumberOfCells(); ++i) {
    a->GetCellAtId(i, ids);
    Cell c;
    for (vtkIdType k = 0; k < ids->GetNumberOfIds(); ++k) c.push_back(ids->GetId(k));
    r.push_back(c);
  }
  return r;
}

}  // namespace gen
#endif
