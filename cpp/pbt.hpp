// A small property-based-testing engine for C++ harnesses.
//
// Every random decision is a draw from a "choice tape". A generated case is a
// pure function of (check name, seed, case index); a replayed or shrunk case is
// a pure function of its tape. Shrinking edits the tape (delete / zero / lower)
// and keeps an edit only if the same failure signature is reproduced.
//
// Command line (see bin/check, which drives it):
//   --check NAME --seed S --from I --stride W --count N --out FILE --cur FILE --deadline SEC
//   --check NAME --seed S --one I --tapeout FILE      (runs one case, write-through tape)
//   --check NAME --tapein FILE [--verbose]            (replays a tape)
#pragma once
#include <fcntl.h>
#include <unistd.h>

#include <chrono>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

struct Failure {
  std::string sig, msg;
};

class T {
 public:
  // draw returns a value in [0,n); n==0 means the full 64-bit range.
  uint64_t draw(uint64_t n) {
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      pos_++;
      if (n && v >= n) v = n - 1;
    } else {
      state_ += 0x9e3779b97f4a7c15ull;
      v = mix(state_);
      if (n) v %= n;
    }
    tape_.push_back(v);
    if (tapefd_ >= 0) {
      std::string s = std::to_string(v) + "\n";
      if (::write(tapefd_, s.data(), s.size()) < 0) std::abort();
    }
    return v;
  }
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }  // inclusive
  bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }   // shrinks to false
  size_t weighted(std::initializer_list<unsigned> w) {
    unsigned tot = 0;
    for (auto x : w) tot += x;
    uint64_t v = draw(tot);
    size_t i = 0;
    for (auto x : w) {
      if (v < x) return i;
      v -= x;
      i++;
    }
    return 0;
  }
  void label(const std::string& s) { labels_.insert(s); }
  // marks this case as non-trivial; key identifies the case for distinctness.
  void nontrivial(uint64_t key) {
    nontrivial_ = true;
    key_ = key;
  }
  void sample(const std::string& s) { sample_ = s; }
  void note(const std::string& s) {
    if (notes_.size() < 20000) notes_ += s + "\n";
  }
  [[noreturn]] void fail(const std::string& sig, const std::string& msg) { throw Failure{sig, msg}; }

  bool replay_ = false;
  int tapefd_ = -1;
  uint64_t state_ = 0;
  std::vector<uint64_t> in_, tape_;
  size_t pos_ = 0;
  std::unordered_set<std::string> labels_;
  bool nontrivial_ = false;
  uint64_t key_ = 0;
  std::string sample_, notes_;
};

#define PBT_CHECK(t, cond, sig, ...)                        \
  do {                                                      \
    if (!(cond)) {                                          \
      std::ostringstream o_;                                \
      o_ << __VA_ARGS__;                                    \
      (t).fail(sig, o_.str());                              \
    }                                                       \
  } while (0)

using Fn = std::function<void(T&)>;

inline std::string jesc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o + "\"";
}

inline bool runTape(const Fn& fn, const std::vector<uint64_t>& tape, T& t, Failure& f) {
  t = T();
  t.replay_ = true;
  t.in_ = tape;
  try {
    fn(t);
  } catch (Failure& x) {
    f = x;
    return true;
  }
  return false;
}

inline std::vector<uint64_t> shrink(const Fn& fn, std::vector<uint64_t> tape, const std::string& sig, double secs) {
  auto t0 = std::chrono::steady_clock::now();
  auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs; };
  auto attempt = [&](const std::vector<uint64_t>& c) {
    T t;
    Failure f;
    if (runTape(fn, c, t, f) && f.sig == sig) {
      // keep what was actually consumed
      if (t.tape_.size() <= c.size()) {
        tape = t.tape_;
      } else {
        tape = c;
      }
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    for (size_t len = std::max<size_t>(1, tape.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= tape.size() && !over();) {
        auto c = tape;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) {
          progress = true;
          continue;
        }
        i += len > 3 ? len / 2 : 1;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < tape.size() && !over(); i++) {
      if (tape[i] == 0) continue;
      auto c = tape;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0;
      for (int k = 0; k < 20 && i < tape.size() && lo + 1 < tape[i] && !over(); k++) {
        c = tape;
        uint64_t mid = lo + (tape[i] - lo) / 2;
        c[i] = mid;
        if (attempt(c)) {
          progress = true;
        } else
          lo = mid;
      }
    }
  }
  return tape;
}

inline int main(int argc, char** argv, const std::map<std::string, Fn>& checks) {
  std::map<std::string, std::string> a;
  for (int i = 1; i < argc; i++) {
    std::string k = argv[i];
    if (k == "--verbose") {
      a[k] = "1";
      continue;
    }
    if (i + 1 < argc) a[k] = argv[++i];
  }
  auto num = [&](const char* k, uint64_t d) { return a.count(k) ? std::strtoull(a[k].c_str(), nullptr, 10) : d; };
  auto it = checks.find(a["--check"]);
  if (it == checks.end()) {
    fprintf(stderr, "unknown check\n");
    return 3;
  }
  const Fn& fn = it->second;
  const uint64_t base = mix(num("--seed", 1) ^ mix(fnv(it->first)));

  if (a.count("--tapein")) {
    std::vector<uint64_t> tape;
    std::ifstream in(a["--tapein"]);
    uint64_t v;
    while (in >> v) tape.push_back(v);
    T t;
    Failure f;
    bool bad = runTape(fn, tape, t, f);
    if (a.count("--verbose")) printf("%s%s\n", t.notes_.c_str(), t.sample_.c_str());
    if (bad) {
      printf("FAIL %s\n%s\n", f.sig.c_str(), f.msg.c_str());
      return 1;
    }
    printf("PASS\n");
    return 0;
  }
  if (a.count("--one")) {
    T t;
    t.state_ = mix(base ^ mix(num("--one", 0)));
    if (a.count("--tapeout")) t.tapefd_ = ::open(a["--tapeout"].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    try {
      fn(t);
    } catch (Failure& f) {
      printf("FAIL %s\n%s\n", f.sig.c_str(), f.msg.c_str());
      return 1;
    }
    printf("PASS\n");
    return 0;
  }

  uint64_t from = num("--from", 0), stride = num("--stride", 1), count = num("--count", 1000);
  double deadline = num("--deadline", 600);
  int curfd = a.count("--cur") ? ::open(a["--cur"].c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644) : -1;
  auto t0 = std::chrono::steady_clock::now();
  uint64_t evals = 0, nontrivial = 0;
  std::unordered_set<uint64_t> keys;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  struct Rep {
    uint64_t index;
    Failure f;
    std::vector<uint64_t> tape;
    std::string text;
  };
  std::map<std::string, Rep> fails;
  bool capped = false;
  for (uint64_t i = from; i < count; i += stride) {
    if (curfd >= 0) {
      char b[32];
      int n = snprintf(b, sizeof b, "%-20" PRIu64, i);
      if (::pwrite(curfd, b, n, 0) < 0) return 3;
    }
    T t;
    t.state_ = mix(base ^ mix(i));
    bool bad = false;
    Failure f;
    try {
      fn(t);
    } catch (Failure& x) {
      bad = true;
      f = x;
    }
    evals++;
    if (t.nontrivial_) {
      nontrivial++;
      keys.insert(t.key_);
    }
    for (auto& l : t.labels_) labels[l]++;
    if (samples.size() < 2 && t.nontrivial_ && !t.sample_.empty()) samples.push_back(t.sample_.substr(0, 1500));
    if (bad && !fails.count(f.sig)) {
      auto tape = shrink(fn, t.tape_, f.sig, 15);
      T t2;
      Failure f2 = f;
      bool again = runTape(fn, tape, t2, f2);
      if (!again) tape = t.tape_;
      fails[f.sig] = Rep{i, again ? f2 : f, tape, t2.sample_};
    }
    if (fails.size() >= 5) break;
    if ((evals & 63) == 0 &&
        std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline) {
      capped = true;
      break;
    }
  }
  std::ofstream o(a["--out"]);
  o << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nontrivial << ",\"capped\":" << (capped ? "true" : "false")
    << ",\"labels\":{";
  bool first = true;
  for (auto& [k, v] : labels) {
    o << (first ? "" : ",") << jesc(k) << ":" << v;
    first = false;
  }
  o << "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << jesc(samples[i]);
  o << "],\"failures\":[";
  first = true;
  for (auto& [k, r] : fails) {
    o << (first ? "" : ",") << "{\"sig\":" << jesc(k) << ",\"index\":" << r.index << ",\"msg\":" << jesc(r.f.msg)
      << ",\"case\":" << jesc(r.text) << ",\"tape\":[";
    for (size_t i = 0; i < r.tape.size(); i++) o << (i ? "," : "") << "\"" << r.tape[i] << "\"";
    o << "]}";
    first = false;
  }
  o << "]}\n";
  o.close();
  std::ofstream kf(a["--out"] + ".keys", std::ios::binary);
  for (auto k : keys) kf.write(reinterpret_cast<const char*>(&k), 8);
  return 0;
}

}  // namespace pbt
