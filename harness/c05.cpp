// C05: histories of the small containers against simple models.
#include <list>
#include <memory>
#include <set>
#include <map>
#include <deque>

#include "pbt.h"
#include "walnut/concat_range.h"
#include "walnut/deed.h"
#include "walnut/redirectable_value.h"
#include "walnut/transform_iterator.h"

using walnut::ConcatRange;
using walnut::Deed;
using walnut::DeedTarget;
using walnut::GenericDeed;
using walnut::RedirectableValue;
using walnut::TransformIterator;

namespace {

// ---- ConcatRange ----

template <class It> It Nth(It it, size_t n) { std::advance(it, n); return it; }

template <class CR, class M> void RandomAccess(pbt::Src& s, CR& r, const M& m, std::random_access_iterator_tag) {
  if (m.empty()) return;
  size_t i = s.draw(m.size());
  size_t n = s.draw(m.size() - i + 1);
  auto it = Nth(r.begin(), i);
  auto to = it + n;
  PBT_CHECK(to == Nth(r.begin(), i + n), "iterator at " << i << " plus " << n);
  if (i + n < m.size()) PBT_CHECK(&it[n] == m[i + n], "element " << n << " after " << i);
}
template <class CR, class M> void RandomAccess(pbt::Src&, CR&, const M&, std::bidirectional_iterator_tag) {}

template <class C> void RunConcat(pbt::Src& s, pbt::Ctx& c) {
  using It = typename C::iterator;
  using CR = ConcatRange<It>;
  std::vector<C> stores(2);
  int next = 0;
  for (C& st : stores) for (size_t k = 1 + s.draw(8); k > 0; --k) st.push_back(next++);
  struct One { CR r; std::vector<int*> m; };
  std::vector<One> pool(2 + s.draw(2));
  size_t ops = 0, nested = 0, longest = 0;
  for (size_t k = 0; s.more(k, 1, 25); ++k) {
    One& o = pool[s.draw(pool.size())];
    size_t id = &o - pool.data();
    switch (s.draw(8)) {
      case 0: case 1: case 2: {
        C& st = stores[s.draw(2)];
        size_t i = s.draw(st.size() + 1), j = i + s.draw(st.size() - i + 1);
        std::vector<int*> add;
        for (size_t x = i; x < j; ++x) add.push_back(&*Nth(st.begin(), x));
        bool front = s.flip();
        c << (front ? "prepend to " : "append to ") << id << " [" << i << "," << j << ")\n";
        if (front) { o.r.Prepend(Nth(st.begin(), i), Nth(st.begin(), j)); o.m.insert(o.m.begin(), add.begin(), add.end()); }
        else { o.r.Append(Nth(st.begin(), i), Nth(st.begin(), j)); o.m.insert(o.m.end(), add.begin(), add.end()); }
        ++ops;
        break;
      }
      case 3: case 4: {
        const One& p = pool[s.draw(pool.size())];
        if (&p == &o || o.m.size() > 200) break;
        size_t i = s.draw(p.m.size() + 1), j = i + s.draw(p.m.size() - i + 1);
        std::vector<int*> add(p.m.begin() + i, p.m.begin() + j);
        typename CR::const_iterator b = Nth(p.r.begin(), i), e = Nth(p.r.begin(), j);
        bool front = s.flip();
        c << (front ? "prepend to " : "append to ") << id << " [" << i << "," << j << ") of " << (&p - pool.data()) << "\n";
        if (front) { o.r.Prepend(b, e); o.m.insert(o.m.begin(), add.begin(), add.end()); }
        else { o.r.Append(b, e); o.m.insert(o.m.end(), add.begin(), add.end()); }
        ++ops;
        if (add.size() > 1) ++nested;
        break;
      }
      case 5: {
        size_t from = s.draw(pool.size());
        c << id << " = copy of " << from << "\n";
        o = One(pool[from]);
        break;
      }
      case 6:
        if (s.chance(1, 3)) { c << "clear " << id << "\n"; o.r.Clear(); o.m.clear(); }
        break;
      default: {
        if (o.m.empty()) break;
        size_t i = s.draw(o.m.size());
        *Nth(o.r.begin(), i) = next;
        PBT_CHECK(*o.m[i] == next, "write through the iterator went elsewhere");
        ++next;
        break;
      }
    }
    longest = std::max(longest, o.m.size());
    // What it shows.
    const CR& cr = o.r;
    std::vector<int*> m = o.m;
    size_t n = 0;
    for (int& v : o.r) { PBT_CHECK(n < m.size() && &v == m[n], "element " << n << " going forward"); ++n; }
    PBT_CHECK(n == m.size(), n << " elements instead of " << m.size());
    n = m.size();
    for (auto it = cr.rbegin(); it != cr.rend(); ++it) { PBT_CHECK(n > 0 && &*it == m[n - 1], "element " << n - 1 << " going backward"); --n; }
    PBT_CHECK(n == 0, "elements missing going backward");
    n = m.size();
    for (auto it = o.r.rbegin(); it != o.r.rend(); it++) { PBT_CHECK(n > 0 && &*it == m[n - 1], "element " << n - 1 << " going backward"); --n; }
    PBT_CHECK((cr.begin() == cr.end()) == m.empty() && cr.cbegin() == o.r.begin() && o.r.end() == cr.cend(), "begin and end");
    if (!m.empty()) {
      size_t at = s.draw(m.size() + 1);
      typename CR::iterator it = Nth(o.r.begin(), at);
      typename CR::const_iterator ci = it;
      for (size_t w = 0; w < 8; ++w) {
        bool up = at == 0 || (at < m.size() && s.flip());
        bool post = s.flip();
        if (post) {
          auto was = up ? it++ : it--;
          PBT_CHECK(was == ci, "value of a postfix step");
          if (up) ci++; else ci--;
        } else {
          auto& now = up ? ++it : --it;
          PBT_CHECK(&now == &it, "value of a prefix step");
          if (up) ++ci; else --ci;
        }
        if (up) ++at; else --at;
        PBT_CHECK(it == ci && !(it != ci), "iterators moved alike differ");
        if (at < m.size()) PBT_CHECK(&*it == m[at] && it.operator->() == m[at] && &*ci == m[at], "element " << at << " after a walk");
        else PBT_CHECK(it == o.r.end(), "walk to the end");
      }
    }
    RandomAccess(s, o.r, m, typename std::iterator_traits<It>::iterator_category());
  }
  if (ops >= 4 && nested >= 1 && longest >= 6) c.nontrivial();
}

// ---- RedirectableValue ----

struct Probe {
  static std::set<const Probe*>& live() { static std::set<const Probe*> l; return l; }
  long v;
  explicit Probe(long v) : v(v) { PBT_CHECK(live().insert(this).second, "value made twice"); }
  Probe() : Probe(-1) {}
  Probe(const Probe& o) : Probe(o.v) {}
  ~Probe() { if (!live().erase(this)) std::abort(); }
};

void RunRedirect(pbt::Src& s, pbt::Ctx& c) {
  using RV = RedirectableValue<Probe>;
  Probe::live().clear();
  struct One { std::unique_ptr<RV> rv; size_t cls; bool copy; };
  struct Cls { long v; RV* primary; size_t size; };
  std::vector<One> pool;
  std::vector<Cls> cls;
  std::set<size_t> open;
  long next = 0;
  size_t redirects = 0, indirect = 0;
  auto check = [&]() {
    PBT_CHECK(Probe::live().size() == open.size(), Probe::live().size() << " values alive instead of " << open.size());
    for (One& o : pool) {
      const Cls& k = cls[o.cls];
      if (s.flip()) continue;   // looking changes what is stored
      const RV& cr = *o.rv;
      if (s.flip()) {
        PBT_CHECK(&cr.primary() == k.primary && cr->v == k.v && (*cr).v == k.v, "value " << cr->v << " instead of " << k.v);
      } else {
        PBT_CHECK(&o.rv->primary() == k.primary && (*o.rv)->v == k.v && (**o.rv).v == k.v, "value " << (*o.rv)->v << " instead of " << k.v);
      }
      PBT_CHECK(cr.IsPrimary() == (o.rv.get() == k.primary), "IsPrimary");
    }
    if (pool.size() >= 2) {
      One& a = pool[s.draw(pool.size())];
      One& b = pool[s.draw(pool.size())];
      PBT_CHECK((*a.rv == *b.rv) == (a.cls == b.cls) && (*a.rv != *b.rv) == (a.cls != b.cls), "comparison");
    }
  };
  for (size_t k = 0; s.more(k, 2, 40); ++k) {
    size_t op = pool.size() < 2 ? s.draw(2) : s.draw(8);
    switch (op) {
      case 0: case 1: {
        One o;
        o.copy = false;
        o.cls = cls.size();
        if (s.chance(1, 6)) { o.rv.reset(new RV()); cls.push_back(Cls{-1, o.rv.get(), 1}); }
        else { o.rv.reset(new RV(next)); cls.push_back(Cls{next, o.rv.get(), 1}); ++next; }
        open.insert(o.cls);
        c << "new " << pool.size() << "\n";
        pool.push_back(std::move(o));
        break;
      }
      case 2: {
        size_t i = s.draw(pool.size());
        One o;
        o.copy = true;
        o.cls = pool[i].cls;
        if (s.flip()) o.rv.reset(new RV(*pool[i].rv));
        else o.rv.reset(new RV(static_cast<const RV&>(*pool[i].rv)));
        ++cls[o.cls].size;
        c << "copy of " << i << "\n";
        pool.push_back(std::move(o));
        break;
      }
      case 3: case 4: case 5: {
        size_t i = s.draw(pool.size()), j = s.draw(pool.size());
        c << "redirect " << i << " to " << j << "\n";
        if (pool[i].rv.get() != cls[pool[i].cls].primary) ++indirect;
        pool[i].rv->Redirect(*pool[j].rv);
        size_t from = pool[i].cls, to = pool[j].cls;
        if (from != to) {
          for (One& o : pool) if (o.cls == from) o.cls = to;
          cls[to].size += cls[from].size;
          open.erase(from);
          ++redirects;
        }
        break;
      }
      case 6: {
        size_t i = s.draw(pool.size());
        (**pool[i].rv).v = next;
        cls[pool[i].cls].v = next;
        ++next;
        break;
      }
      default: {
        // Only what nothing can refer to.
        size_t i = s.draw(pool.size());
        One& o = pool[i];
        if (!o.copy && cls[o.cls].size > 1) break;
        if (!o.copy && o.rv.get() != cls[o.cls].primary) break;
        c << "destroy " << i << "\n";
        if (--cls[o.cls].size == 0) open.erase(o.cls);
        pool.erase(pool.begin() + i);
        break;
      }
    }
    check();
  }
  while (!pool.empty()) pool.erase(pool.begin() + s.draw(pool.size()));
  PBT_CHECK(Probe::live().empty(), "values left alive");
  if (redirects >= 3 && indirect >= 1) c.nontrivial();
}

// ---- Deed ----

struct Obj : DeedTarget {
  explicit Obj(long v) : v(v) {}
  Obj(const Obj&) = default;
  Obj(Obj&&) noexcept = default;
  Obj& operator=(const Obj&) = default;
  Obj& operator=(Obj&&) = default;
  long v;
};

template <class D> bool Empty(const D& d) { return d == nullptr; }

template <class D> void RunDeed(pbt::Src& s, pbt::Ctx& c) {
  std::vector<Obj> objs;
  struct MObj { long v; int owner; };
  std::vector<MObj> mo;
  struct MDeed { std::unique_ptr<D> d; int obj = -1; int lender = -1; bool lent = false; };
  std::map<int, MDeed> deeds;
  int next_deed = 0;
  long next = 0;
  size_t lends = 0, object_moves = 0, deed_moves = 0;
  auto own = [&](int d) { if (deeds[d].obj >= 0) mo[deeds[d].obj].owner = d; };
  auto pick = [&](bool usable) -> int {
    std::vector<int> v;
    for (auto& d : deeds) if (!usable || !d.second.lent) v.push_back(d.first);
    return v.empty() ? -1 : s.pick(v);
  };
  auto give_back = [&](int d) {
    MDeed& m = deeds[d];
    if (m.lender >= 0) { deeds[m.lender].obj = m.obj; deeds[m.lender].lent = false; }
    if (m.obj >= 0) mo[m.obj].owner = m.lender;
    m.obj = m.lender = -1;
  };
  auto check = [&]() {
    for (size_t i = 0; i < mo.size(); ++i) PBT_CHECK(objs[i].v == mo[i].v, "object " << i << " holds " << objs[i].v);
    for (auto& e : deeds) {
      const MDeed& m = e.second;
      PBT_CHECK(m.d->is_lender() == m.lent, "deed " << e.first << (m.lent ? " is not" : " is") << " lent");
      if (m.lent) continue;
      const DeedTarget* want = m.obj < 0 ? nullptr : &objs[m.obj];
      PBT_CHECK(m.d->get() == want, "deed " << e.first << " does not point to object " << m.obj);
      PBT_CHECK(bool(*m.d) == (want != nullptr) && (*m.d == nullptr) == (want == nullptr) && (*m.d != nullptr) == (want != nullptr), "deed " << e.first << " compared with null");
    }
  };
  for (size_t k = 0; s.more(k, 2, 50); ++k) {
    switch (s.draw(14)) {
      case 0: case 1:
        // May move all objects.
        objs.emplace_back(next);
        mo.push_back(MObj{next++, -1});
        c << "object\n";
        break;
      case 2: {
        if (mo.empty()) break;
        size_t i = s.draw(mo.size());
        c << "erase object " << i << "\n";
        objs.erase(objs.begin() + i);
        if (mo[i].owner >= 0) deeds[mo[i].owner].obj = -1;
        mo.erase(mo.begin() + i);
        for (auto& d : deeds) if (!d.second.lent && d.second.obj > (int)i) --d.second.obj;
        ++object_moves;
        break;
      }
      case 3: {
        if (mo.empty()) break;
        size_t i = s.draw(mo.size()), j = s.draw(mo.size());
        c << "swap objects " << i << " " << j << "\n";
        std::swap(objs[i], objs[j]);
        if (i != j) {
          std::swap(mo[i], mo[j]);
          if (mo[i].owner >= 0) deeds[mo[i].owner].obj = i;
          if (mo[j].owner >= 0) deeds[mo[j].owner].obj = j;
        }
        ++object_moves;
        break;
      }
      case 4: {
        if (mo.empty()) break;
        size_t i = s.draw(mo.size()), j = s.draw(mo.size());
        if (s.flip()) {
          c << "object " << i << " = object " << j << "\n";
          const Obj& from = objs[j];
          objs[i] = from;
          mo[i].v = mo[j].v;
        } else {
          c << "object " << i << " = move of object " << j << "\n";
          Obj& from = objs[j];
          objs[i] = std::move(from);
          mo[i].v = mo[j].v;
          std::swap(mo[i].owner, mo[j].owner);
          if (mo[i].owner >= 0) deeds[mo[i].owner].obj = i;
          if (mo[j].owner >= 0) deeds[mo[j].owner].obj = j;
          ++object_moves;
        }
        break;
      }
      case 5: {
        if (mo.empty()) break;
        size_t i = s.draw(mo.size());
        bool move = s.flip();
        c << "object from " << (move ? "move of " : "copy of ") << i << "\n";
        // Without moving the others.
        objs.reserve(objs.size() + 1);
        if (move) objs.emplace_back(std::move(objs[i]));
        else objs.emplace_back(objs[i]);
        mo.push_back(MObj{mo[i].v, -1});
        if (move) {
          std::swap(mo[i].owner, mo.back().owner);
          if (mo.back().owner >= 0) deeds[mo.back().owner].obj = mo.size() - 1;
          ++object_moves;
        }
        break;
      }
      case 6: case 7: {
        if (deeds.size() > 8) break;
        int id = next_deed++;
        size_t kind = mo.empty() ? s.draw(2) : s.draw(7);
        MDeed m;
        if (kind == 0) { m.d.reset(new D()); c << "deed " << id << " empty\n"; }
        else if (kind == 1) { m.d.reset(new D(static_cast<Obj*>(nullptr))); c << "deed " << id << " of nothing\n"; }
        else {
          size_t i = s.draw(mo.size());
          c << "deed " << id << " of object " << i << "\n";
          m.d.reset(new D(&objs[i]));
          m.obj = i;
          m.lender = mo[i].owner;
          if (m.lender >= 0) { deeds[m.lender].lent = true; ++lends; }
          mo[i].owner = id;
        }
        deeds[id] = std::move(m);
        break;
      }
      case 8: {
        int l = pick(true);
        if (l < 0 || deeds.size() > 8) break;
        int id = next_deed++;
        c << "deed " << id << " lent by " << l << "\n";
        MDeed m;
        m.d.reset(new D(deeds[l].d->Lend()));
        m.obj = deeds[l].obj;
        m.lender = l;
        deeds[l].lent = true;
        deeds[id] = std::move(m);
        own(id);
        ++lends;
        break;
      }
      case 9: {
        int f = pick(true);
        if (f < 0 || deeds.size() > 8) break;
        int id = next_deed++;
        c << "deed " << id << " moved from " << f << "\n";
        MDeed m;
        m.d.reset(new D(std::move(*deeds[f].d)));
        m.obj = deeds[f].obj;
        m.lender = deeds[f].lender;
        deeds[f].obj = deeds[f].lender = -1;
        deeds[id] = std::move(m);
        own(id);
        ++deed_moves;
        break;
      }
      case 10: case 11: {
        int a = pick(true), b = pick(true);
        if (a < 0) break;
        bool assign = s.flip();
        c << "deed " << a << (assign ? " = " : " <-> ") << b << "\n";
        D& db = *deeds[b].d;
        if (assign) *deeds[a].d = std::move(db);
        else deeds[a].d->swap(db);
        if (a != b) {
          std::swap(deeds[a].obj, deeds[b].obj);
          std::swap(deeds[a].lender, deeds[b].lender);
          own(a);
          own(b);
        }
        ++deed_moves;
        break;
      }
      case 12: {
        int a = pick(true);
        if (a < 0) break;
        c << "return deed " << a << "\n";
        deeds[a].d->Return();
        give_back(a);
        break;
      }
      default: {
        int a = pick(true);
        if (a < 0) break;
        c << "destroy deed " << a << "\n";
        deeds[a].d.reset();
        give_back(a);
        deeds.erase(a);
        break;
      }
    }
    check();
  }
  bool objects_first = s.flip();
  if (objects_first) {
    objs.clear();
    for (auto& d : deeds) d.second.obj = -1;
    mo.clear();
    check();
  }
  while (!deeds.empty()) {
    int a = pick(true);
    PBT_CHECK(a >= 0, "model: all deeds lent");
    deeds[a].d.reset();
    give_back(a);
    deeds.erase(a);
    check();
  }
  if (lends >= 1 && object_moves >= 2 && deed_moves >= 1) c.nontrivial();
}

// ---- TransformIterator ----

struct Table {
  std::vector<long>* to = nullptr;
  long& operator()(size_t i) const { return (*to)[i]; }
};

void RunTransform(pbt::Src& s, pbt::Ctx& c) {
  std::vector<long> values;
  for (long i = 0; i < 6; ++i) values.push_back(i);
  std::vector<size_t> index;
  for (size_t k = 0; s.more(k, 1, 12); ++k) index.push_back(s.draw(values.size()));
  Table t;
  t.to = &values;
  using It = TransformIterator<std::vector<size_t>::iterator, Table>;
  using CIt = TransformIterator<std::vector<size_t>::const_iterator, Table>;
  It begin(index.begin(), t), end(index.end(), t);
  std::vector<std::pair<It, size_t>> pool{{begin, 0}, {end, index.size()}};
  long n = index.size();
  for (size_t k = 0; s.more(k, 1, 30); ++k) {
    auto& p = pool[s.draw(pool.size())];
    auto q = pool[s.draw(pool.size())];
    It& it = p.first;
    size_t& at = p.second;
    switch (s.draw(8)) {
      case 0: if (at < index.size()) { PBT_CHECK(&++it == &it, "prefix step"); ++at; } break;
      case 1: if (at > 0) { --it; --at; } break;
      case 2: if (at < index.size()) { It was = it++; size_t o = at; ++at; pool.push_back({was, o}); } break;
      case 3: if (at > 0) { It was = it--; size_t o = at; --at; pool.push_back({was, o}); } break;
      case 4: { long d = s.range(-(long)at, n - (long)at); pool.push_back({it + d, at + d}); break; }
      case 5: { long d = s.range((long)at - n, (long)at); pool.push_back({it - d, at - d}); break; }
      case 6: { long d = s.range(-(long)at, n - (long)at); it += d; at += d; break; }
      default: { long d = s.range((long)at - n, (long)at); it -= d; at -= d; break; }
    }
    for (auto& x : pool) {
      long a = x.second, b = q.second;
      CIt y(q.first);
      PBT_CHECK((x.first == y) == (a == b) && (x.first != y) == (a != b), "equality");
      PBT_CHECK((x.first < y) == (a < b) && (x.first <= y) == (a <= b) && (x.first > y) == (a > b) && (x.first >= y) == (a >= b), "order");
      PBT_CHECK(x.first - y == a - b, "distance");
      if (a < n) {
        PBT_CHECK(&*x.first == &values[index[a]] && x.first.operator->() == &values[index[a]], "element " << a);
        PBT_CHECK(&x.first[b < n ? b - a : 0] == &values[index[b < n ? b : a]], "element " << b << " from " << a);
      }
    }
    if (pool.size() > 12) pool.resize(12);
  }
  c << index.size() << " elements, " << pool.size() << " iterators\n";
  if (pool.size() >= 5 && n >= 3) c.nontrivial();
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  switch (s.draw(8)) {
    case 0: c.label("concatenated vectors"); RunConcat<std::vector<int>>(s, c); break;
    case 1: c.label("concatenated lists"); RunConcat<std::list<int>>(s, c); break;
    case 2: case 3: c.label("redirection"); RunRedirect(s, c); break;
    case 4: case 5: c.label("deeds"); RunDeed<Deed<Obj>>(s, c); break;
    case 6: c.label("generic deeds"); RunDeed<GenericDeed>(s, c); break;
    default: c.label("transformed iterators"); RunTransform(s, c); break;
  }
}

}  // namespace

PBT_MAIN((pbt::Property{"C05", "a history that shares, moves or nests what it works on (by kind of object)", Run, 60}))
