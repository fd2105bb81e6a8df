// Concurrent histories over the LRU cache; built with ThreadSanitizer.
//
// A case is a set of per-thread operation sequences plus a tape of yields injected from
// inside the key hash and key comparison (which run within the cache's critical sections).
// Oracle: no data race / crash (ThreadSanitizer), and the recorded history is linearizable
// with respect to the sequential cache (checked by exhaustive search over linearizations for
// short histories, and by necessary conditions for long ones).
#include <algorithm>
#include <atomic>
#include <chrono>
#include <list>
#include <optional>
#include <set>
#include <thread>

#include "common/lru_cache.h"
#include "pbt.hpp"

using pbt::T;

namespace {

thread_local uint64_t tlYield = 0;
void maybeYield() {
  if (tlYield == 0) return;
  tlYield = tlYield * 6364136223846793005ull + 1442695040888963407ull;
  unsigned r = static_cast<unsigned>(tlYield >> 58);
  if (r < 12) std::this_thread::yield();
  if (r == 63) std::this_thread::sleep_for(std::chrono::microseconds(20));
}

struct Key {
  std::string s;
  bool operator==(const Key& o) const {
    maybeYield();
    return s == o.s;
  }
};
struct Hash {
  size_t operator()(const Key& k) const {
    maybeYield();
    return std::hash<std::string>()(k.s) & 7;  // frequent collisions: comparisons within the lock
  }
};
// A heap-allocated value whose copies take a while.
struct Value {
  std::string s;
  Value() = default;
  explicit Value(int64_t v) : s("some-long-value-not-in-sso-buffer-" + std::to_string(v)) {}
  Value(const Value& o) {
    maybeYield();
    s = o.s;
  }
  Value(Value&&) = default;
  Value& operator=(const Value& o) {
    maybeYield();
    s = o.s;
    return *this;
  }
  Value& operator=(Value&&) = default;
  int64_t num() const { return s.size() < 34 ? -1 : std::stoll(s.substr(34)); }
};
Key key(int k) { return Key{"key-with-a-long-name-beyond-sso-" + std::to_string(k)}; }

enum Kind { kGet, kPut, kGetOrInsert, kClear };
struct Op {
  Kind kind;
  int key;
  int64_t val;                 // value written (put) or offered (getOrInsert)
  uint64_t inv = 0, res = 0;   // invocation / response ticks
  std::optional<int64_t> out;  // observed result
  int factory = 0;             // number of factory calls
};

std::string show(const Op& o) {
  std::ostringstream s;
  const char* n[] = {"get", "put", "getOrInsert", "clear"};
  s << n[o.kind] << "(" << o.key;
  if (o.kind == kPut || o.kind == kGetOrInsert) s << "," << o.val;
  s << ")";
  if (o.res) s << "=" << (o.out ? std::to_string(*o.out) : "none") << "@[" << o.inv << "," << o.res << "]";
  return s.str();
}

struct Model {
  size_t cap;
  std::vector<std::pair<int, int64_t>> l;  // most recent last
  std::optional<int64_t> get(int k) {
    for (size_t i = 0; i < l.size(); i++)
      if (l[i].first == k) {
        auto e = l[i];
        l.erase(l.begin() + static_cast<std::ptrdiff_t>(i));
        l.push_back(e);
        return e.second;
      }
    return std::nullopt;
  }
  void put(int k, int64_t v) {
    for (auto& e : l)
      if (e.first == k) {
        e.second = v;
        return;
      }
    if (l.size() >= cap) l.erase(l.begin());
    l.emplace_back(k, v);
  }
};

// Atomic steps: a getOrInsert that ran its factory is a missed get followed (not necessarily
// atomically) by an insert-or-assign; one that did not is a successful get.
struct Step {
  Kind kind;
  int key;
  int64_t val;
  std::optional<int64_t> out;
  uint64_t inv, res;
};

struct Linearizer {
  size_t cap;
  std::vector<std::vector<Step>> th;
  std::set<std::string> dead;
  uint64_t budget = 300000;
  bool search(Model m, std::vector<size_t> pos) {
    if (budget == 0) return true;  // inconclusive
    budget--;
    bool all = true;
    uint64_t minRes = UINT64_MAX;
    for (size_t i = 0; i < th.size(); i++)
      if (pos[i] < th[i].size()) {
        all = false;
        minRes = std::min(minRes, th[i][pos[i]].res);
      }
    if (all) return true;
    std::string sig;
    for (auto p : pos) sig += std::to_string(p) + ",";
    for (auto& e : m.l) sig += std::to_string(e.first) + ":" + std::to_string(e.second) + ";";
    if (dead.count(sig)) return false;
    for (size_t i = 0; i < th.size(); i++) {
      if (pos[i] >= th[i].size()) continue;
      const Step& s = th[i][pos[i]];
      if (s.inv > minRes) continue;  // some other pending step finished before this one began
      Model n = m;
      if (s.kind == kGet) {
        if (n.get(s.key) != s.out) continue;
      } else if (s.kind == kPut) {
        n.put(s.key, s.val);
      } else {
        n.l.clear();
      }
      auto p = pos;
      p[i]++;
      if (search(n, p)) return true;
    }
    dead.insert(sig);
    return false;
  }
};

template <size_t C>
void run(T& t, size_t threads, size_t perThread, int keys, bool exhaustive) {
  std::vector<std::vector<Op>> plan(threads);
  std::vector<uint64_t> yields(threads);
  int64_t next = 1;
  uint64_t h = C;
  for (size_t i = 0; i < threads; i++) {
    yields[i] = t.draw(3) ? t.draw(0) | 1 : 0;
    size_t n = t.range(1, perThread);
    for (size_t j = 0; j < n; j++) {
      Op o;
      o.kind = static_cast<Kind>(t.weighted({6, 6, 6, exhaustive ? 1u : 0u}));
      o.key = static_cast<int>(t.draw(static_cast<uint64_t>(keys)));
      o.val = next++ * 1000 + o.key;
      h = pbt::mix(h ^ static_cast<uint64_t>(o.kind * 131 + o.key));
      plan[i].push_back(o);
    }
  }
  std::ostringstream d;
  d << "capacity " << C << ", " << threads << " threads over " << keys << " keys";
  for (size_t i = 0; i < threads && plan[i].size() < 12; i++) {
    d << "; T" << i << ":";
    for (auto& o : plan[i]) d << " " << show(o);
  }
  t.sample_ = d.str();
  t.label("capacity-" + std::to_string(C));

  tosca::LruCache<Key, Value, C, Hash> cache;
  std::atomic<uint64_t> clock{1};
  std::atomic<size_t> ready{0};
  std::vector<std::thread> ts;
  for (size_t i = 0; i < threads; i++) {
    ts.emplace_back([&, i] {
      tlYield = yields[i];
      ready++;
      while (ready < threads) std::this_thread::yield();
      for (auto& o : plan[i]) {
        Key k = key(o.key);
        o.inv = clock.fetch_add(1);
        switch (o.kind) {
          case kGet: {
            auto r = cache.Get(k);
            if (r) o.out = r->num();
            break;
          }
          case kPut: o.out = cache.InsertOrAssign(k, Value(o.val)).num(); break;
          case kGetOrInsert:
            o.out = cache.GetOrInsert(k, [&] {
                           o.factory++;
                           maybeYield();
                           return Value(o.val);
                         })
                        .num();
            break;
          case kClear: cache.Clear(); break;
        }
        o.res = clock.fetch_add(1);
      }
      tlYield = 0;
    });
  }
  for (auto& x : ts) x.join();
  bool overlap = false;
  std::ostringstream hist;
  hist << "capacity " << C << ":";
  for (size_t i = 0; i < threads && plan[i].size() < 12; i++) {
    hist << " T" << i << ":";
    for (auto& o : plan[i]) hist << " " << show(o);
  }
  for (size_t i = 0; i < threads; i++)
    for (auto& o : plan[i])
      for (size_t j = 0; j < i && !overlap; j++)
        for (auto& p : plan[j])
          if (p.inv < o.res && o.inv < p.res) {
            overlap = true;
            break;
          }
  // Necessary conditions, for every history.
  for (auto& th : plan)
    for (auto& o : th) {
      if (o.kind == kPut) PBT_CHECK(t, o.out == o.val, "put-return", show(o) << " in " << hist.str());
      if (o.kind == kGetOrInsert) {
        PBT_CHECK(t, o.factory <= 1, "factory-calls", show(o) << " in " << hist.str());
        PBT_CHECK(t, o.out && (o.factory == 0 || *o.out == o.val), "getorinsert-value", show(o) << " in " << hist.str());
      }
      if (o.out && o.kind != kClear)
        PBT_CHECK(t, *o.out % 1000 == o.key, "foreign-value", show(o) << " returned the value of another key in " << hist.str());
    }
  if (exhaustive) {
    Linearizer lin{C, {}, {}};
    for (auto& th : plan) {
      std::vector<Step> v;
      for (auto& o : th) {
        switch (o.kind) {
          case kGet: v.push_back({kGet, o.key, 0, o.out, o.inv, o.res}); break;
          case kPut: v.push_back({kPut, o.key, o.val, {}, o.inv, o.res}); break;
          case kClear: v.push_back({kClear, 0, 0, {}, o.inv, o.res}); break;
          case kGetOrInsert:
            if (o.factory) {
              v.push_back({kGet, o.key, 0, std::nullopt, o.inv, o.res});
              v.push_back({kPut, o.key, o.val, {}, o.inv, o.res});
            } else
              v.push_back({kGet, o.key, 0, o.out, o.inv, o.res});
        }
      }
      lin.th.push_back(v);
    }
    // A read-back after all threads finished is part of the history.
    std::vector<Step> fin;
    uint64_t now = clock.load() + 1;
    for (int k = 0; k < keys; k++) {
      auto r = cache.Get(key(k));
      std::optional<int64_t> v;
      if (r) v = r->num();
      fin.push_back({kGet, k, 0, v, now, now + 1});
      now += 2;
    }
    lin.th.push_back(fin);
    bool ok = lin.search(Model{C, {}}, std::vector<size_t>(lin.th.size(), 0));
    std::ostringstream f;
    for (auto& s : fin) f << " " << s.key << "=" << (s.out ? std::to_string(*s.out) : "none");
    PBT_CHECK(t, ok, "not-linearizable", hist.str() << " final:" << f.str());
    if (lin.budget == 0) t.label("linearization-inconclusive");
  } else {
    // After quiescence the cache still is a bounded LRU map: it holds at most its capacity, and a
    // fresh run of inserts evicts everything else.
    size_t present = 0;
    for (int k = 0; k < keys; k++)
      if (cache.Get(key(k))) present++;
    PBT_CHECK(t, present <= C, "capacity-exceeded", present << " entries in a cache of capacity " << C);
    std::set<int64_t> seen;
    for (size_t i = 0; i < C; i++) cache.InsertOrAssign(key(1000 + static_cast<int>(i)), Value(static_cast<int64_t>(i)));
    for (size_t i = 0; i < C; i++) {
      auto r = cache.Get(key(1000 + static_cast<int>(i)));
      PBT_CHECK(t, r && r->num() == static_cast<int64_t>(i), "post-quiescence", "fresh key " << i << " lost after the concurrent phase");
    }
    for (int k = 0; k < keys; k++) PBT_CHECK(t, !cache.Get(key(k)), "post-quiescence-old", "old key " << k << " survived " << C << " fresh inserts");
  }
  if (overlap) {
    t.label("overlapping");
    t.nontrivial(h);
  }
}

void shortHistories(T& t) {
  size_t threads = t.range(2, 4);
  size_t per = threads == 2 ? 6 : threads == 3 ? 5 : 4;
  int keys = static_cast<int>(t.range(1, 4));
  switch (t.draw(3)) {
    case 0: return run<2>(t, threads, per, keys, true);
    case 1: return run<3>(t, threads, per, keys, true);
    default: return run<1>(t, threads, per, keys, true);
  }
}
void longHistories(T& t) {
  size_t threads = t.range(2, 6);
  switch (t.draw(4)) {
    case 0: return run<2>(t, threads, 300, 5, false);
    case 1: return run<1>(t, threads, 300, 3, false);
    case 2: return run<8>(t, threads, 300, 20, false);
    default: return run<32>(t, threads, 300, 40, false);
  }
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::main(argc, argv, {{"lru-threads-short", shortHistories}, {"lru-threads-long", longHistories}});
}
