// C04: exact vertices of linked facets mapped to doubles.
#include "boolean.h"
#include "doubles.h"
#include "linked.h"
#include "walnut/vertex_double_point3_mapper.h"

using namespace gen;
using walnut::ConnectedPolygon;
using walnut::DoublePoint3;
using walnut::RedirectableValue;

namespace {

void Run(pbt::Src& s, pbt::Ctx& c) {
  Mesh m = GenAmbiguous(s);
  std::vector<ConnectedPolygon<>> polys;
  for (const Loop& l : m) {
    HalfSpace3 plane = PlaneOf(l, Z(1));
    std::vector<int> dims;
    for (int i = 0; i < 3; ++i) if (!plane.normal().components()[i].IsZero()) dims.push_back(i);
    std::vector<HomoPoint3> v;
    for (const P3& p : l) v.push_back(Homo(p, BigScale(s)));
    polys.emplace_back(plane, dims[0], v);
  }
  ConnectAll(s, polys, true);
  using Edge = ConnectedPolygon<>::EdgeRep;
  std::vector<const Edge*> edges;
  for (const auto& p : polys) {
    for (size_t i = 0; i < p.vertex_count(); ++i) {
      edges.push_back(&p.edge(i));
      c << ToP(p.vertex(i)) << "/" << ToZ(p.vertex(i).w()) << (p.edge(i).partner() ? "+ " : "- ");
    }
    c << "\n";
  }
  // Values remember the points they were made for, also after a merge.
  using Value = std::vector<DKey>;
  bool backwards = s.chance(1, 4);
  size_t created = 0, merged = 0;
  auto factory = [&](const DoublePoint3& p) { ++created; return Value{Key(p)}; };
  auto merger = [&](RedirectableValue<Value>& a, RedirectableValue<Value>& b) {
    ++merged;
    PBT_CHECK(a != b, "merger called for one value");
    RedirectableValue<Value>& from = backwards ? b : a;
    RedirectableValue<Value>& to = backwards ? a : b;
    Value old = *from;
    to->insert(to->end(), old.begin(), old.end());
    from.Redirect(to);
  };
  using Mapper = walnut::VertexDoublePoint3Mapper<decltype(factory), decltype(merger)>;
  Mapper mapper(factory, merger);
  UnionFind model;
  bool ambiguous = false;
  auto visit = [&](const Edge* e) {
    auto& r = mapper.Map(*e);
    DKey k = Key(e->vertex().GetDoublePoint3());
    PBT_CHECK(Key(r.first) == k, "edge from " << ToP(e->vertex()) << " mapped to " << Key(r.first));
    P3 at = ToP(e->vertex());
    for (int d = 0; d < 3; ++d) PBT_CHECK(Near(k[d], at[d]), "coordinate " << at[d] << " mapped to " << k[d]);
    model.Find(k);
    const auto* next = e->GetNextAroundVertex();
    if (next) {
      PBT_CHECK(ToP(next->vertex()) == at, "next edge starts at another vertex");
      DKey o = Key(next->vertex().GetDoublePoint3());
      if (o != k) ambiguous = true;
      model.Join(k, o);
    }
  };
  auto check = [&](const char* when) {
    std::map<const void*, DKey> cls;
    std::map<DKey, const void*> val;
    size_t primaries = 0, values = 0;
    PBT_CHECK(mapper.map.size() == model.up.size(), when << ": " << mapper.map.size() << " points instead of " << model.up.size());
    for (auto& e : mapper.map) {
      DKey k = Key(e.first);
      PBT_CHECK(model.up.count(k), when << ": point " << k << " was not mapped");
      DKey r = model.Find(k);
      const void* v = &*e.second;
      auto a = cls.emplace(v, r);
      PBT_CHECK(a.first->second == r, when << ": points " << k << " and " << r << " share a value but are not the same vertex");
      auto b = val.emplace(r, v);
      PBT_CHECK(b.first->second == v, when << ": points " << k << " and " << r << " are the same vertex but have different values");
      if (e.second.IsPrimary()) { ++primaries; values += e.second->size(); }
      for (const DKey& o : *e.second) PBT_CHECK(model.Find(o) == r, when << ": value of " << k << " was made for " << o);
    }
    PBT_CHECK(primaries == cls.size(), when << ": " << primaries << " values for " << cls.size() << " vertices");
    PBT_CHECK(values == created, when << ": values made for points were lost");
  };
  std::vector<const Edge*> order = edges;
  s.shuffle(order);
  size_t stop = s.draw(order.size());
  for (size_t i = 0; i < order.size(); ++i) {
    visit(order[i]);
    if (i == stop) check("after some of the edges");
    if (s.chance(1, 8)) visit(s.pick(edges));
  }
  check("after all edges");
  // Whatever edge is looked up, all around a vertex the value is shared.
  std::set<std::pair<P3, DKey>> forms;
  std::map<P3, int> count;
  for (const Edge* e : edges) {
    DKey k = Key(e->vertex().GetDoublePoint3());
    if (forms.insert({ToP(e->vertex()), k}).second) ++count[ToP(e->vertex())];
    const auto* next = e->GetNextAroundVertex();
    if (!next) continue;
    PBT_CHECK(mapper.map.find(e->vertex().GetDoublePoint3())->second == mapper.map.find(next->vertex().GetDoublePoint3())->second,
              "edges around " << ToP(e->vertex()) << " have different values");
  }
  int most = 0;
  for (auto& x : count) most = std::max(most, x.second);
  c.count(edges.size());
  c.label(most >= 4 ? "4 or more forms of a vertex" : most == 3 ? "3 forms of a vertex" : most == 2 ? "2 forms of a vertex" : "1 form");
  if (merged >= 2) c.label("two or more merges");
  if (ambiguous && merged >= 1 && most >= 3) c.nontrivial();
}

}  // namespace

PBT_MAIN((pbt::Property{"C04", "a vertex with at least 3 double forms and a merge", Run, 60}))
