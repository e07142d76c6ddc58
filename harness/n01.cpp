// N01: ring arithmetic and value semantics of BigInt, against GMP, over
// histories of operations on a pool of variables (aliasing included).
#include "num.h"

using namespace gen;

namespace {

struct Pool {
  std::vector<BigInt> v;
  std::vector<Z> m;
};

const char* kOps[] = {"a=b+c", "a=b-c", "a=b*c", "a+=b", "a-=b", "a*=b",
                      "a=-b", "a.Negate", "a=abs(b)", "++a", "--a",
                      "a.AddMultiply(b,c)", "a.SubtractMultiply(b,c)",
                      "a=Determinant", "a=b", "a=move(b)", "a=BigInt(b)",
                      "a+=half", "a-=half", "a=int*b", "a=b*int", "a*=int",
                      "a=b+int", "a=b-int", "a=word", "GetAbs", "swap",
                      "a=new", "++--walk"};
const size_t kOpCount = sizeof(kOps) / sizeof(kOps[0]);

void CheckValue(const BigInt& v, const Z& m, const char* op) {
  PBT_CHECK(ToZ(v) == m, op << ": expected " << m << " got " << ToZ(v));
  // The same value produced another way is the same value to every observer.
  BigInt again = FromZ(m);
  PBT_CHECK(v == again && again == v && !(v != again) && !(again != v),
            op << ": " << m << " is not equal to itself built differently");
  PBT_CHECK(v.Compare(again) == 0 && again.Compare(v) == 0 && !(v < again) &&
                !(again < v) && v <= again && v >= again,
            op << ": " << m << " is ordered differently from itself");
  PBT_CHECK(v.GetHash() == again.GetHash(), op << ": hash of " << m);
  PBT_CHECK(SgnI(v.GetSign()) == Sgn(m), op << ": sign of " << m);
  PBT_CHECK(v.IsZero() == (m == 0), op << ": IsZero of " << m);
  PBT_CHECK(v.IsNegative() == (m < 0), op << ": IsNegative of " << m);
  PBT_CHECK(v.GetAbsMult() == (m < 0 ? -1 : 1), op << ": GetAbsMult of " << m);
}

void Run(pbt::Src& s, pbt::Ctx& c) {
  Pool p;
  size_t n = s.size(2, 5);
  size_t words = s.pick(std::vector<size_t>{2, 1, 3, 5, 9});
  for (size_t i = 0; i < n; ++i) {
    p.m.push_back(GenZ(s, words));
    p.v.push_back(CheckedFromZ(p.m.back()));
    c << "v" << i << "=" << p.m.back() << " ";
  }
  size_t steps = 0;
  bool multi = false, alias = false;
  for (size_t k = 0; s.more(k, 1, 20); ++k) {
    ++steps;
    size_t op = s.draw(kOpCount);
    size_t a = s.draw(n), b = s.draw(n), d = s.draw(n);
    // Keep the numbers from exploding.
    for (size_t i : {a, b, d}) {
      if (mpz_sizeinbase(p.m[i].get_mpz_t(), 2) > 64 * 40) {
        p.m[i] = 1;
        p.v[i] = BigInt(1);
      }
    }
    int small = static_cast<int>(
        s.flip() ? s.range(-5, 5)
                 : s.pick(std::vector<int64_t>{INT32_MAX, INT32_MIN, INT32_MIN + 1, 65536, -65536}));
    c << "| " << kOps[op] << " " << a << "," << b << "," << d << ";" << small << " ";
    c.label(std::string("op ") + kOps[op]);
    if (a == b || a == d || b == d) alias = true;
    if (MultiWord(p.m[a]) || MultiWord(p.m[b])) multi = true;
    std::vector<Z> m = p.m;
    auto& v = p.v;
    switch (op) {
      case 0: v[a] = v[b] + v[d]; m[a] = p.m[b] + p.m[d]; break;
      case 1: v[a] = v[b] - v[d]; m[a] = p.m[b] - p.m[d]; break;
      case 2: v[a] = v[b] * v[d]; m[a] = p.m[b] * p.m[d]; break;
      case 3: v[a] += v[b]; m[a] = p.m[a] + p.m[b]; break;
      case 4: v[a] -= v[b]; m[a] = p.m[a] - p.m[b]; break;
      case 5: v[a] *= v[b]; m[a] = p.m[a] * p.m[b]; break;
      case 6: v[a] = -v[b]; m[a] = -p.m[b]; break;
      case 7: v[a].Negate(); m[a] = -p.m[a]; break;
      case 8: v[a] = v[b].abs(); m[a] = abs(p.m[b]); break;
      case 9: { BigInt& r = ++v[a]; m[a] += 1; PBT_CHECK(&r == &v[a], "++ returns the object"); break; }
      case 10: { BigInt& r = --v[a]; m[a] -= 1; PBT_CHECK(&r == &v[a], "-- returns the object"); break; }
      case 11: v[a].AddMultiply(v[b], v[d]); m[a] = p.m[a] + p.m[b] * p.m[d]; break;
      case 12: v[a].SubtractMultiply(v[b], v[d]); m[a] = p.m[a] - p.m[b] * p.m[d]; break;
      case 13: {
        size_t e = s.draw(n);
        v[a] = BigInt::Determinant(v[a], v[b], v[d], v[e]);
        m[a] = p.m[a] * p.m[e] - p.m[b] * p.m[d];
        break;
      }
      case 14: v[a] = v[b]; m[a] = p.m[b]; break;
      case 15: {
        // A moved-from object may be assigned to and used again.
        if (a != b) {
          BigInt tmp(std::move(v[b]));
          v[a] = std::move(tmp);
          m[a] = p.m[b];
          m[b] = GenZ(s, words);
          switch (s.draw(3)) {
            case 0: v[b] = FromZ(m[b]); break;
            case 1: { BigInt x = FromZ(m[b]); v[b] = x; break; }
            case 2: m[b] = p.m[a]; v[b] = BigIntWord(7); m[b] = 7; break;
          }
        }
        break;
      }
      case 16: { BigInt copy(v[b]); BigInt copy2 = copy; v[a] = copy2; ++copy; copy2 += copy; m[a] = p.m[b]; break; }
      case 17: v[a] += walnut::BigIntHalfWord(small); m[a] += small; break;
      case 18: v[a] -= walnut::BigIntHalfWord(small); m[a] -= small; break;
      case 19: v[a] = small * v[b]; m[a] = small * p.m[b]; break;
      case 20: v[a] = v[b] * small; m[a] = p.m[b] * small; break;
      case 21: v[a] *= small; m[a] = p.m[a] * small; break;
      case 22: v[a] = v[b] + small; m[a] = p.m[b] + small; break;
      case 23: v[a] = v[b] - small; m[a] = p.m[b] - small; break;
      case 24: {
        int64_t w = static_cast<int64_t>(s.bits64());
        if (s.flip()) w = s.flip() ? INT64_MIN : INT64_MAX;
        if (s.flip()) { v[a] = BigIntWord(w); m[a] = Z(long(w)); }
        else { v[a] = v[b] * BigIntWord(w); m[a] = p.m[b] * Z(long(w)); }
        break;
      }
      case 25: {
        bool neg = false;
        BigInt r = v[b].GetAbs(neg);
        PBT_CHECK(neg == (p.m[b] < 0), "GetAbs sign flag of " << p.m[b]);
        CheckValue(r, abs(p.m[b]), "GetAbs");
        bool neg2 = false;
        BigUInt u = v[b].GetUIntAbs(&neg2);
        PBT_CHECK(neg2 == (p.m[b] < 0) && ToZ(u) == abs(p.m[b]),
                  "unsigned magnitude of " << p.m[b] << " is " << ToZ(u));
        BigInt from_u(u);
        CheckValue(from_u, abs(p.m[b]), "BigInt(BigUInt)");
        v[a] = u;
        m[a] = abs(p.m[b]);
        break;
      }
      case 26: std::swap(v[a], v[b]); std::swap(m[a], m[b]); break;
      case 27: m[a] = GenZ(s, words); v[a] = CheckedFromZ(m[a]); break;
      case 28: {
        // Walk across a representation boundary one by one.
        size_t e = s.pick(std::vector<size_t>{31, 32, 63, 64, 127, 128});
        Z x = Pow2(e);
        if (s.flip()) x = -x;
        int64_t from = s.range(-3, 3);
        x += long(from);
        BigInt y = CheckedFromZ(x);
        size_t walk = s.size(1, 7);
        bool up = s.flip();
        for (size_t i = 0; i < walk; ++i) {
          if (up) { ++y; x += 1; } else { --y; x -= 1; }
          CheckValue(y, x, up ? "++" : "--");
        }
        v[a] = y;
        m[a] = x;
        multi = true;
        break;
      }
    }
    p.m = m;
    for (size_t i = 0; i < n; ++i) {
      // Also verifies that the variables that were not assigned keep their
      // values.
      CheckValue(v[i], m[i], kOps[op]);
    }
    PBT_CHECK(v[a].HasSameSign(v[b]) == ((m[a] < 0) == (m[b] < 0)), "HasSameSign " << m[a] << " " << m[b]);
    PBT_CHECK(v[a].HasDifferentSign(v[b]) == ((m[a] < 0) != (m[b] < 0)), "HasDifferentSign");
    PBT_CHECK(v[a].GetAbsMult(v[b]) == ((m[a] < 0) == (m[b] < 0) ? 1 : -1), "GetAbsMult(other)");
  }
  if (multi) c.label("multi-word");
  if (alias) c.label("aliased");
  if (multi && steps >= 2) c.nontrivial();
}

}  // namespace

static const pbt::Property kProp = {
    "N01",
    "A case is a pool of 2-5 integers of up to 9 (growing to 40) words and a history of 1-20 operations with "
    "aliasing; non-trivial: at least two operations and an operand outside one machine word.",
    Run, 20};
PBT_MAIN(kProp)
