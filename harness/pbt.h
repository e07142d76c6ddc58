// Small property-based testing engine.
//
// A property is a function `void prop(pbt::Src&, pbt::Ctx&)`. It draws every
// random decision from `Src` as a bounded integer ("choice"). The recorded
// choice sequence identifies the generated input completely, so it is what is
// shrunk and what is written to the replay file.
//
// Cases run in forked workers. The choice sequence of the running case lives
// in shared memory, so an abort (failed assert), a sanitizer report, a fatal
// signal or a runaway case inside the code under test is a failure with a
// known input, exactly like an oracle mismatch.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <cstdint>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};
struct Overrun {};
struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

// Shared memory slot of one worker.
constexpr size_t kMaxChoices = 1 << 16;
constexpr size_t kMsgSize = 1 << 14;
constexpr size_t kMaxLabels = 96;
struct Slot {
  volatile uint64_t case_index;
  volatile uint64_t evaluations;
  volatile uint64_t nontrivial;
  volatile uint64_t discards;
  volatile uint64_t known_hits;
  volatile int failed;    // 1: a Failure was thrown
  volatile int done;      // 1: ran all of its cases
  volatile uint64_t choice_count;
  volatile uint64_t choices[kMaxChoices];
  char message[kMsgSize];
  char rendering[kMsgSize];
  struct { char name[48]; volatile uint64_t count; } labels[kMaxLabels];
  char samples[8][2048];
  volatile uint64_t sample_count;
  volatile uint64_t fp_count;
};

class Src {
 public:
  // Random generation.
  Src(uint64_t seed, Slot* slot) : state_(seed), slot_(slot) {
    slot_->choice_count = 0;
  }
  // Replay.
  Src(const std::vector<uint64_t>& replay, Slot* slot)
      : replay_(&replay), slot_(slot) { slot_->choice_count = 0; }
  // Bytes chosen by a coverage-guided fuzzer.
  Src(const uint8_t* data, size_t size, Slot* slot)
      : bytes_(data), bytes_left_(size), slot_(slot) {
    slot_->choice_count = 0;
  }

  // Uniform in [0, bound). 0 is the simplest value.
  uint64_t draw(uint64_t bound) {
    uint64_t v;
    if (replay_) {
      v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
      ++pos_;
      if (bound && v >= bound) v = bound - 1;
    } else if (bytes_) {
      int n = !bound || bound > (1ULL << 32) ? 8
              : bound > 65536 ? 4 : bound > 256 ? 2 : 1;
      v = 0;
      while (n-- > 0) {
        v <<= 8;
        if (bytes_left_) { v |= *bytes_++; --bytes_left_; }
      }
      if (bound) v %= bound;
    } else {
      state_ += 0x9e3779b97f4a7c15ULL;
      v = mix64(state_);
      if (bound) v %= bound;
    }
    if (slot_->choice_count >= kMaxChoices) throw Overrun();
    slot_->choices[slot_->choice_count] = v;
    slot_->choice_count = slot_->choice_count + 1;
    fp_ = mix64(fp_ ^ v) + bound;
    return v;
  }
  uint64_t bits64() {
    uint64_t hi = draw(1ULL << 32);
    uint64_t lo = draw(1ULL << 32);
    return (hi << 32) | lo;
  }
  bool flip() { return draw(2) != 0; }
  // True with probability num/den; shrinks towards false.
  bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
  // Integer in [lo, hi]; shrinks towards the value nearest to zero.
  int64_t range(int64_t lo, int64_t hi) {
    if (lo > hi) throw Discard();
    int64_t zero = lo > 0 ? lo : (hi < 0 ? hi : 0);
    uint64_t n = static_cast<uint64_t>(hi - lo) + 1;
    int64_t c = static_cast<int64_t>(draw(n));
    // Zigzag outwards from `zero`, then continue on the longer side.
    int64_t up = hi - zero, down = zero - lo;
    int64_t m = up < down ? up : down;
    if (c == 0) return zero;
    if (c <= 2 * m) return (c & 1) ? zero + (c + 1) / 2 : zero - c / 2;
    return up > down ? zero + (c - m) : zero - (c - m);
  }
  size_t size(size_t lo, size_t hi) {
    return lo + static_cast<size_t>(draw(hi - lo + 1));
  }
  // Loop control with a length in [lo, hi]: `for (size_t k = 0; s.more(k, 1, 9);
  // ++k)`. One choice per iteration, so that an iteration can be cut out.
  bool more(size_t done, size_t lo, size_t hi) {
    if (done < lo) return true;
    if (done >= hi) return false;
    size_t mean = (hi - lo) / 2 + 1;
    return draw(mean + 1) != 0;
  }
  template <class T> const T& pick(const std::vector<T>& v) {
    if (v.empty()) throw Discard();
    return v[draw(v.size())];
  }
  template <class T> void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) {
      // choice 0 keeps the element in place
      size_t j = i - 1 - draw(i);
      std::swap(v[i - 1], v[j]);
    }
  }
  uint64_t fingerprint() const { return fp_; }

 private:
  uint64_t state_ = 0;
  const std::vector<uint64_t>* replay_ = nullptr;
  size_t pos_ = 0;
  const uint8_t* bytes_ = nullptr;
  size_t bytes_left_ = 0;
  uint64_t fp_ = 0x1234;
  Slot* slot_;
};

class Ctx {
 public:
  explicit Ctx(Slot* slot) : slot_(slot) {}
  // Marks the case as non-trivial according to the property's rule.
  void nontrivial() { nontrivial_ = true; }
  void label(const std::string& name);
  // Text that describes the generated input; kept for samples and reports.
  template <class T> Ctx& operator<<(const T& t) {
    if (text_len_ < 6000) {
      std::ostringstream o;
      o << t;
      std::string s = o.str();
      append(s);
    }
    return *this;
  }
  void append(const std::string& s);
  bool is_nontrivial() const { return nontrivial_; }
  size_t text_len() const { return text_len_; }
  Slot* slot() { return slot_; }
  // Known finding hit by construction of the input: the case is counted and
  // not judged any further.
  [[noreturn]] void known(const std::string& id);
  void reset();
  // Extra multiplier of evaluations inside one case (e.g. query points).
  void count(uint64_t n) { extra_ += n; }
  uint64_t extra() const { return extra_; }

 private:
  Slot* slot_;
  bool nontrivial_ = false;
  size_t text_len_ = 0;
  uint64_t extra_ = 0;
};

struct KnownHit { std::string id; };

struct Property {
  const char* id;          // e.g. "B01"
  const char* rule;        // what makes a case non-trivial
  void (*run)(Src&, Ctx&);
  double cpu_limit_s;      // per-case CPU limit: a runaway case is a failure
};

int engine_main(int argc, char** argv, const Property& prop);

#define PBT_FAIL(msg)                                                \
  do {                                                               \
    std::ostringstream pbt_o_;                                       \
    pbt_o_ << msg;                                                   \
    throw ::pbt::Failure(pbt_o_.str());                              \
  } while (0)
#define PBT_CHECK(cond, msg)                                         \
  do {                                                               \
    if (!(cond)) PBT_FAIL(msg << "  [violated: " #cond "]");         \
  } while (0)

int fuzz_one(const uint8_t* data, size_t size, const Property& prop);

#ifdef PBT_FUZZ
#define PBT_MAIN(prop)                                               \
  extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) { \
    return ::pbt::fuzz_one(d, n, prop);                              \
  }
#else
#define PBT_MAIN(prop)                                               \
  int main(int argc, char** argv) {                                  \
    return ::pbt::engine_main(argc, argv, prop);                     \
  }
#endif

}  // namespace pbt
#endif
