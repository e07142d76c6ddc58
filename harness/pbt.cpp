#include "pbt.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>

namespace pbt {

void Ctx::label(const std::string& name) {
  for (size_t i = 0; i < kMaxLabels; ++i) {
    auto& l = slot_->labels[i];
    if (l.name[0] == 0) {
      std::strncpy(l.name, name.c_str(), sizeof(l.name) - 1);
    }
    if (std::strncmp(l.name, name.c_str(), sizeof(l.name) - 1) == 0) {
      l.count = l.count + 1;
      return;
    }
  }
}

void Ctx::append(const std::string& s) {
  size_t room = kMsgSize - 1 - text_len_;
  size_t n = std::min(room, s.size());
  std::memcpy(slot_->rendering + text_len_, s.data(), n);
  text_len_ += n;
  slot_->rendering[text_len_] = 0;
}

void Ctx::reset() {
  nontrivial_ = false;
  text_len_ = 0;
  extra_ = 0;
  slot_->rendering[0] = 0;
}

void Ctx::known(const std::string& id) {
  label("known-finding:" + id);
  throw KnownHit{id};
}

namespace {

double now() {
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  return tv.tv_sec + tv.tv_usec * 1e-6;
}

struct Options {
  uint64_t seed = 1;
  uint64_t cases = 1000;
  double time_cap = 300;
  int workers = 8;
  std::string evidence;
  std::string replay;
  std::string from_bytes;
  std::string replay_dir = ".";
  std::string tier = "quick";
  std::string level = "exploration";
  double shrink_s = 45;
  bool print_labels = false;
};

enum class Outcome { kPass, kDiscard, kKnown, kFail };

// Runs one case in this process. Only a thrown Failure is caught.
Outcome run_once(const Property& p, Src& src, Ctx& ctx, std::string* msg) {
  ctx.reset();
  try {
    p.run(src, ctx);
    return Outcome::kPass;
  } catch (const Discard&) {
    return Outcome::kDiscard;
  } catch (const Overrun&) {
    return Outcome::kDiscard;
  } catch (const KnownHit&) {
    return Outcome::kKnown;
  } catch (const Failure& f) {
    *msg = f.what();
    return Outcome::kFail;
  } catch (const std::exception& e) {
    *msg = std::string("exception escaped from the code under test: ") +
           e.what();
    return Outcome::kFail;
  }
}

void set_case_timer(double s) {
  struct itimerval t;
  std::memset(&t, 0, sizeof(t));
  t.it_value.tv_sec = static_cast<long>(s);
  t.it_value.tv_usec = static_cast<long>((s - std::floor(s)) * 1e6);
  setitimer(ITIMER_PROF, &t, nullptr);
}

void quiet_stderr(const std::string& path) {
  int fd = open(path.empty() ? "/dev/null" : path.c_str(),
                O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
}

void child_setup() {
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
  rl.rlim_cur = rl.rlim_max = 6ULL << 30;
  setrlimit(RLIMIT_AS, &rl);
#endif
  rl.rlim_cur = rl.rlim_max = 64ULL << 20;
  setrlimit(RLIMIT_STACK, &rl);
}

Slot* map_slots(size_t n) {
  void* p = mmap(nullptr, sizeof(Slot) * n, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<Slot*>(p);
}

std::string describe_status(int status) {
  std::ostringstream o;
  if (WIFSIGNALED(status)) {
    int s = WTERMSIG(status);
    if (s == SIGPROF) {
      o << "case exceeded its CPU limit (runaway or non-terminating)";
    } else if (s == SIGABRT) {
      o << "aborted (assertion in the code under test)";
    } else {
      o << "killed by signal " << s << " (" << strsignal(s) << ")";
    }
  } else {
    o << "exit status " << WEXITSTATUS(status);
    if (WEXITSTATUS(status) == 77) o << " (sanitizer report)";
  }
  return o.str();
}

std::string tail_of(const std::string& path) {
  std::ifstream in(path);
  std::string s((std::istreambuf_iterator<char>(in)),
                std::istreambuf_iterator<char>());
  if (s.size() > 1500) s = s.substr(0, 1500);
  return s;
}

struct Attempt {
  bool failed = false;
  std::string what;       // failure message
  std::vector<uint64_t> choices;
  std::string rendering;
};

// Runs a choice sequence in a forked child.
Attempt attempt(const Property& p, const std::vector<uint64_t>& choices,
                double limit, Slot* slot, const std::string& errfile) {
  std::memset(slot->message, 0, sizeof(slot->message));
  slot->rendering[0] = 0;
  slot->failed = 0;
  slot->done = 0;
  slot->choice_count = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    child_setup();
    quiet_stderr(errfile);
    set_case_timer(limit);
    Ctx ctx(slot);
    Src src(choices, slot);
    std::string msg;
    Outcome o = run_once(p, src, ctx, &msg);
    if (o == Outcome::kFail) {
      slot->failed = 1;
      std::strncpy(slot->message, msg.c_str(), kMsgSize - 1);
      _exit(3);
    }
    slot->done = 1;
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  Attempt a;
  a.choices.assign(slot->choices, slot->choices + slot->choice_count);
  a.rendering = slot->rendering;
  if (slot->done) return a;
  a.failed = true;
  if (slot->failed) {
    a.what = slot->message;
  } else {
    a.what = describe_status(status) + ": " + tail_of(errfile);
  }
  return a;
}

bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

void shrink(const Property& p, Attempt& best, double budget, Slot* slot,
            const std::string& errfile, double limit) {
  double end = now() + budget;
  std::set<std::vector<uint64_t>> seen;
  int tries = 0;
  auto consider = [&](const std::vector<uint64_t>& c) -> bool {
    if (now() > end || tries > 6000) return false;
    if (!simpler(c, best.choices)) return false;
    if (seen.size() < 20000 && !seen.insert(c).second) return false;
    ++tries;
    Attempt a = attempt(p, c, limit, slot, errfile);
    if (a.failed && (a.choices == c || simpler(a.choices, best.choices))) {
      if (simpler(a.choices, best.choices)) {
        best = a;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && now() < end && tries <= 6000) {
    progress = false;
    // Delete blocks.
    for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1;
         len = len > 16 ? len / 2 : len - 1) {
      for (size_t i = 0; i + len <= best.choices.size();) {
        std::vector<uint64_t> c = best.choices;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (consider(c)) {
          progress = true;
        } else {
          i += len;
        }
        if (now() > end) return;
      }
    }
    // Zero blocks.
    for (size_t len = 8; len >= 2; len /= 2) {
      for (size_t i = 0; i + len <= best.choices.size(); i += len) {
        std::vector<uint64_t> c = best.choices;
        std::fill(c.begin() + i, c.begin() + i + len, 0);
        if (consider(c)) progress = true;
        if (now() > end) return;
      }
    }
    // Lower single values.
    for (size_t i = 0; i < best.choices.size(); ++i) {
      if (best.choices[i] == 0) continue;
      std::vector<uint64_t> c = best.choices;
      c[i] = 0;
      if (consider(c)) { progress = true; continue; }
      uint64_t lo = 0, hi = best.choices[i];
      while (lo + 1 < hi && now() < end) {
        uint64_t mid = lo + (hi - lo) / 2;
        if (i >= best.choices.size()) break;
        c = best.choices;
        c[i] = mid;
        if (consider(c)) { progress = true; hi = mid; } else { lo = mid; }
      }
      if (i < best.choices.size() && best.choices[i] > 0) {
        c = best.choices;
        c[i] -= 1;
        if (consider(c)) progress = true;
      }
      // Lower this one and drop the following one (length prefixes).
      if (i + 1 < best.choices.size() && best.choices[i] > 0) {
        c = best.choices;
        c[i] -= 1;
        c.erase(c.begin() + i + 1);
        if (consider(c)) progress = true;
      }
      if (now() > end) return;
    }
  }
}

std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      o += b;
    } else o += c;
  }
  return o;
}

// Shrinks a confirmed failure, writes the replay file, prints the verdict.
void report(const Property& prop, const Options& o, Attempt best,
            Slot* scratch, const std::string& errfile,
            const std::string& replay_path) {
  Attempt original = best;
  shrink(prop, best, o.shrink_s, scratch, errfile,
         std::min(prop.cpu_limit_s, 10.0));
  int ok = 0;
  for (int r = 0; r < 3; ++r) {
    Attempt a = attempt(prop, best.choices, prop.cpu_limit_s * 2, scratch,
                        errfile);
    if (a.failed) { ++ok; best.what = a.what; best.rendering = a.rendering; }
  }
  if (ok < 3) best = original;
  std::ofstream out(replay_path);
  auto commented = [](const std::string& s) {
    std::string r = "# ";
    for (char c : s) { r += c; if (c == '\n') r += "# "; }
    return r;
  };
  out << "# property " << prop.id << "\n"
      << commented("failure: " + best.what) << "\n"
      << commented("input: " + best.rendering) << "\n";
  for (uint64_t v : best.choices) out << v << " ";
  out << "\n";
  out.close();
  std::cout << "failure: " << best.what << "\n"
            << "input: " << best.rendering << "\n"
            << "shrunk from " << original.choices.size() << " to "
            << best.choices.size() << " choices\n";
  std::cout << "VIOLATION property=" << prop.id << " replay=" << replay_path
            << std::endl;
}

}  // namespace

int fuzz_one(const uint8_t* data, size_t size, const Property& prop) {
  static Slot* slot = map_slots(1);
  Ctx ctx(slot);
  Src src(data, size, slot);
  std::string msg;
  if (run_once(prop, src, ctx, &msg) == Outcome::kFail) {
    std::cerr << "failure: " << msg << std::endl;
    __builtin_trap();
  }
  // Reset the label table, which nobody reads in this mode.
  slot->labels[0].name[0] = 0;
  return 0;
}

int engine_main(int argc, char** argv, const Property& prop) {
  Options o;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") o.seed = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "--cases") o.cases = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "--time") o.time_cap = std::atof(v.c_str());
    else if (k == "--workers") o.workers = std::atoi(v.c_str());
    else if (k == "--evidence") o.evidence = v;
    else if (k == "--replay") o.replay = v;
    else if (k == "--from-bytes") o.from_bytes = v;
    else if (k == "--replay-dir") o.replay_dir = v;
    else if (k == "--tier") o.tier = v;
    else if (k == "--level") o.level = v;
    else if (k == "--shrink") o.shrink_s = std::atof(v.c_str());
    else if (k == "--labels") o.print_labels = v == "1";
    else { std::cerr << "unknown option " << k << "\n"; return 2; }
  }
  std::string tmp = "/tmp/pbt." + std::to_string(getpid());
  std::string errfile = tmp + ".err";

  if (!o.replay.empty()) {
    // Replay file: "# text" lines, then the choices.
    std::ifstream in(o.replay);
    if (!in) { std::cerr << "cannot read " << o.replay << "\n"; return 2; }
    std::vector<uint64_t> c;
    std::string line;
    while (std::getline(in, line)) {
      if (line.empty() || line[0] == '#') continue;
      std::istringstream ls(line);
      uint64_t v;
      while (ls >> v) c.push_back(v);
    }
    Slot* slot = map_slots(1);
    Attempt a = attempt(prop, c, prop.cpu_limit_s * 2, slot, errfile);
    std::cout << "input: " << a.rendering << "\n";
    unlink(errfile.c_str());
    if (a.failed) {
      std::cout << "failure: " << a.what << "\n";
      std::cout << "VIOLATION property=" << prop.id << " replay=" << o.replay
                << "\n";
      return 1;
    }
    std::cout << "no failure\n";
    return 0;
  }

  if (!o.from_bytes.empty()) {
    // Input found by the coverage-guided fuzzer: turn it into choices.
    std::ifstream in(o.from_bytes, std::ios::binary);
    std::string data((std::istreambuf_iterator<char>(in)),
                     std::istreambuf_iterator<char>());
    Slot* slot = map_slots(1);
    slot->choice_count = 0;
    pid_t pid = fork();
    if (pid == 0) {
      child_setup();
      quiet_stderr("");
      set_case_timer(prop.cpu_limit_s * 2);
      Ctx ctx(slot);
      Src src(reinterpret_cast<const uint8_t*>(data.data()), data.size(), slot);
      std::string msg;
      run_once(prop, src, ctx, &msg);
      _exit(0);
    }
    waitpid(pid, nullptr, 0);
    std::vector<uint64_t> c(slot->choices, slot->choices + slot->choice_count);
    Attempt best;
    int again = 0;
    for (int r = 0; r < 3; ++r) {
      Attempt a = attempt(prop, c, prop.cpu_limit_s * 2, slot, errfile);
      if (a.failed) { ++again; best = a; }
    }
    int rc = 0;
    if (again > 0) {
      report(prop, o, best, slot, errfile,
             o.replay_dir + "/" + prop.id + "-fuzz.replay");
      rc = 1;
    } else {
      std::cout << "not reproduced outside the fuzzer\n";
    }
    unlink(errfile.c_str());
    return rc;
  }

  const int W = std::max(1, o.workers);
  Slot* slots = map_slots(W + 1);
  // Fingerprints of non-trivial cases.
  const size_t fp_cap = 1 << 22;
  uint64_t* fps = static_cast<uint64_t*>(
      mmap(nullptr, sizeof(uint64_t) * fp_cap * W, PROT_READ | PROT_WRITE,
           MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  const double start = now();
  const double end = start + o.time_cap;
  const uint64_t base = mix64(mix64(o.seed) ^
                              (uint64_t(prop.id[0]) << 16 |
                               uint64_t(prop.id[1]) << 8 | prop.id[2]));
  std::vector<pid_t> pids(W);
  auto spawn = [&](int w, uint64_t first) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid != 0) { pids[w] = pid; return; }
    child_setup();
    quiet_stderr(tmp + "." + std::to_string(w) + ".err");
    Slot* slot = &slots[w];
    Ctx ctx(slot);
    for (uint64_t i = first; i < o.cases; i += W) {
      if (now() > end) break;
      slot->case_index = i;
      set_case_timer(prop.cpu_limit_s);
      Src src(mix64(base + i * 0x2545F4914F6CDD1DULL), slot);
      std::string msg;
      Outcome r = run_once(prop, src, ctx, &msg);
      if (r == Outcome::kFail) {
        set_case_timer(0);
        slot->failed = 1;
        std::strncpy(slot->message, msg.c_str(), kMsgSize - 1);
        _exit(3);
      }
      if (r == Outcome::kDiscard) {
        slot->discards = slot->discards + 1;
        continue;
      }
      if (r == Outcome::kKnown) {
        slot->known_hits = slot->known_hits + 1;
        continue;
      }
      slot->evaluations = slot->evaluations + 1;
      if (ctx.is_nontrivial()) {
        slot->nontrivial = slot->nontrivial + 1;
        if (slot->fp_count < fp_cap) {
          fps[w * fp_cap + slot->fp_count] = src.fingerprint();
          slot->fp_count = slot->fp_count + 1;
        }
        if (slot->sample_count < 8 && ctx.text_len() > 0 &&
            (slot->sample_count == 0 || slot->evaluations % 37 == 0)) {
          std::strncpy(slot->samples[slot->sample_count], slot->rendering,
                       sizeof(slot->samples[0]) - 1);
          slot->sample_count = slot->sample_count + 1;
        }
      }
    }
    set_case_timer(0);
    slot->done = 1;
    _exit(0);
  };
  for (int w = 0; w < W; ++w) spawn(w, w);

  bool violated = false;
  std::string flaky;
  int flaky_count = 0;
  std::string replay_path;
  int live = W;
  auto stop_all = [&]() {
    for (int w = 0; w < W; ++w) {
      if (pids[w] > 0) { kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); pids[w] = 0; }
    }
    live = 0;
  };
  while (live > 0) {
    int status = 0;
    pid_t pid = waitpid(-1, &status, 0);
    if (pid < 0) break;
    int w = -1;
    for (int i = 0; i < W; ++i) if (pids[i] == pid) w = i;
    if (w < 0) continue;
    pids[w] = 0;
    --live;
    Slot* slot = &slots[w];
    if (slot->done) continue;
    // Failure.
    Attempt first;
    first.failed = true;
    first.choices.assign(slot->choices, slot->choices + slot->choice_count);
    first.what = slot->failed
                     ? std::string(slot->message)
                     : describe_status(status) + ": " +
                           tail_of(tmp + "." + std::to_string(w) + ".err");
    uint64_t failing_case = slot->case_index;
    slot->failed = 0;
    // Pause the others while confirming.
    for (int i = 0; i < W; ++i) if (pids[i] > 0) kill(pids[i], SIGSTOP);
    Slot* scratch = &slots[W];
    int again = 0;
    Attempt best = first;
    for (int r = 0; r < 3; ++r) {
      Attempt a = attempt(prop, first.choices, prop.cpu_limit_s * 2, scratch,
                          errfile);
      if (a.failed) { ++again; best = a; }
    }
    if (again == 0) {
      // Not reproducible from its input: not reported as a violation.
      ++flaky_count;
      flaky = first.what;
      std::cerr << "note: case " << failing_case
                << " failed once and not on replay: " << first.what << "\n";
      for (int i = 0; i < W; ++i) if (pids[i] > 0) kill(pids[i], SIGCONT);
      if (flaky_count < 20) { spawn(w, failing_case + W); ++live; }
      continue;
    }
    stop_all();
    violated = true;
    replay_path = o.replay_dir + "/" + prop.id + "-" +
                  std::to_string(o.seed) + "-" + std::to_string(failing_case) +
                  ".replay";
    report(prop, o, best, scratch, errfile, replay_path);
  }
  for (int w = 0; w < W; ++w) {
    unlink((tmp + "." + std::to_string(w) + ".err").c_str());
  }
  unlink(errfile.c_str());

  uint64_t evals = 0, nontriv = 0, disc = 0, known = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  for (int w = 0; w < W; ++w) {
    evals += slots[w].evaluations;
    nontriv += slots[w].nontrivial;
    disc += slots[w].discards;
    known += slots[w].known_hits;
    for (uint64_t i = 0; i < slots[w].fp_count; ++i) {
      distinct.insert(fps[w * fp_cap + i]);
    }
    for (size_t i = 0; i < kMaxLabels; ++i) {
      if (slots[w].labels[i].name[0])
        labels[slots[w].labels[i].name] += slots[w].labels[i].count;
    }
  }
  for (size_t k = 0; k < 8 && samples.size() < 12; ++k) {
    for (int w = 0; w < W && samples.size() < 12; ++w) {
      if (slots[w].sample_count > k) samples.push_back(slots[w].samples[k]);
    }
  }
  double wall = now() - start;
  if (!o.evidence.empty()) {
    std::ofstream e(o.evidence);
    e << "{\n  \"property\": \"" << prop.id << "\",\n  \"tier\": \"" << o.tier
      << "\",\n  \"seed\": " << o.seed << ",\n  \"level\": \"" << o.level
      << "\",\n  \"coverage\": {\n    \"evaluations\": " << evals
      << ",\n    \"distinct_nontrivial\": " << distinct.size()
      << ",\n    \"discarded\": " << disc
      << ",\n    \"known_finding_hits\": " << known
      << ",\n    \"not_reproduced\": " << flaky_count
      << ",\n    \"rule\": \"" << json_escape(prop.rule)
      << "\",\n    \"labels\": {";
    bool first = true;
    for (auto& l : labels) {
      e << (first ? "" : ", ") << "\"" << json_escape(l.first)
        << "\": " << l.second;
      first = false;
    }
    e << "},\n    \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) {
      std::string s = samples[i].substr(0, 700);
      e << (i ? ",\n      " : "\n      ") << "\"" << json_escape(s) << "\"";
    }
    e << "\n    ]\n  },\n  \"wall_s\": " << wall
      << ",\n  \"violations\": " << (violated ? 1 : 0) << "\n}\n";
  }
  std::cout << prop.id << " " << o.tier << " seed=" << o.seed
            << " evaluations=" << evals << " nontrivial=" << nontriv
            << " distinct=" << distinct.size() << " discarded=" << disc
            << " known=" << known << " wall=" << wall << "s" << std::endl;
  if (o.print_labels) {
    for (auto& l : labels) std::cout << "  " << l.first << ": " << l.second << "\n";
  }
  return violated ? 1 : 0;
}

}  // namespace pbt
