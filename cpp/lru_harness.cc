// Model-based property check for the LRU cache of cpp/common.
#include <algorithm>
#include <array>
#include <list>
#include <memory>
#include <optional>
#include <stdexcept>

#include "common/hash_utils.h"
#include "common/lru_cache.h"
#include "pbt.hpp"

using pbt::T;

// ---------------------------------------------------------------- LRU cache
namespace {

// Reference model: a recency-ordered list of (key,value), most recent first.
struct Model {
  size_t cap;
  std::list<std::pair<int, int64_t>> l;
  auto find(int k) {
    return std::find_if(l.begin(), l.end(), [&](auto& e) { return e.first == k; });
  }
  std::optional<int64_t> get(int k) {
    auto it = find(k);
    if (it == l.end()) return std::nullopt;
    l.splice(l.begin(), l, it);
    return l.front().second;
  }
  bool put(int k, int64_t v) {  // returns true when something was evicted
    auto it = find(k);
    if (it != l.end()) {
      it->second = v;  // overwriting updates the value only
      return false;
    }
    bool ev = false;
    if (l.size() >= cap) {
      l.pop_back();
      ev = true;
    }
    l.emplace_front(k, v);
    return ev;
  }
};

struct BadFactory : std::runtime_error {
  BadFactory() : std::runtime_error("factory") {}
};

struct ICache {
  virtual ~ICache() = default;
  virtual std::optional<int64_t> get(int k) = 0;
  virtual int64_t put(int k, int64_t v) = 0;
  virtual int64_t getOrInsert(int k, const std::function<int64_t()>& f) = 0;
  virtual void clear() = 0;
  virtual size_t max() = 0;
};

template <typename K>
struct KeyConv;
template <>
struct KeyConv<int> {
  static int to(int k) { return k * 7919 - 3; }
};
template <>
struct KeyConv<std::string> {
  static std::string to(int k) { return std::string(static_cast<size_t>(k % 40), 'x') + std::to_string(k); }
};
template <size_t N>
struct KeyConv<std::array<uint8_t, N>> {
  static std::array<uint8_t, N> to(int k) {
    std::array<uint8_t, N> a{};
    a[static_cast<size_t>(k * 13) % N] = static_cast<uint8_t>(k + 1);
    a[N - 1] ^= static_cast<uint8_t>(k);
    a[0] ^= static_cast<uint8_t>(k >> 3);
    a[N / 2] = static_cast<uint8_t>(k);
    return a;
  }
};
template <typename V>
struct ValConv;
template <>
struct ValConv<int64_t> {
  static int64_t to(int64_t v) { return v; }
  static int64_t from(int64_t v) { return v; }
};
template <>
struct ValConv<std::string> {
  static std::string to(int64_t v) { return "value-that-does-not-fit-into-sso-" + std::to_string(v); }
  static int64_t from(const std::string& v) { return v.empty() ? -1 : std::stoll(v.substr(33)); }
};

struct ConstHash {
  template <typename X>
  size_t operator()(const X&) const {
    return 42;
  }
};
struct WeakHash {
  template <typename X>
  size_t operator()(const X& x) const {
    return std::hash<X>()(x) & 3;
  }
};

template <typename K, typename V, size_t C, typename H>
struct Impl : ICache {
  tosca::LruCache<K, V, C, H> c;
  using KC = KeyConv<K>;
  using VC = ValConv<V>;
  std::optional<int64_t> get(int k) override {
    auto r = c.Get(KC::to(k));
    if (!r) return std::nullopt;
    return VC::from(*r);
  }
  int64_t put(int k, int64_t v) override { return VC::from(c.InsertOrAssign(KC::to(k), VC::to(v))); }
  int64_t getOrInsert(int k, const std::function<int64_t()>& f) override {
    return VC::from(c.GetOrInsert(KC::to(k), [&] { return VC::to(f()); }));
  }
  void clear() override { c.Clear(); }
  size_t max() override { return c.GetMaxSize(); }
};

using B32 = std::array<uint8_t, 32>;
using B64 = std::array<uint8_t, 64>;
using Factory = std::unique_ptr<ICache> (*)();
template <typename K, typename V, size_t C, typename H>
std::unique_ptr<ICache> mk() {
  return std::make_unique<Impl<K, V, C, H>>();
}
struct Config {
  const char* name;
  size_t cap;
  Factory f;
};
#define CFG(K, V, C, H) {#K "->" #V "/" #C "/" #H, C, mk<K, V, C, H>}
const std::vector<Config> kConfigs = {
    CFG(int, int64_t, 2, std::hash<int>),
    CFG(int, int64_t, 3, std::hash<int>),
    CFG(int, int64_t, 1, std::hash<int>),
    CFG(int, int64_t, 4, ConstHash),
    CFG(int, int64_t, 32, std::hash<int>),
    CFG(std::string, std::string, 5, std::hash<std::string>),
    CFG(int, int64_t, 8, WeakHash),
    CFG(B32, int64_t, 7, tosca::HashBytes<32>),
    CFG(B64, std::string, 16, tosca::HashBytes<64>),
};

void lruModel(T& t) {
  const auto& cfg = kConfigs[t.draw(kConfigs.size())];
  auto cache = cfg.f();
  Model m{cfg.cap, {}};
  std::ostringstream log;
  log << cfg.name << ":";
  PBT_CHECK(t, cache->max() == cfg.cap, "max-size", "GetMaxSize=" << cache->max() << " cap=" << cfg.cap);
  // key spaces just below, at and above the capacity, or far above
  int keys = static_cast<int>(
      std::max<uint64_t>(1, t.weighted({3, 2, 1}) == 0 ? cfg.cap + t.draw(4)
                                                        : t.range(1, 3 * cfg.cap + 3)));
  size_t evictions = 0, hits = 0, overwrites = 0, clears = 0, hitThenEvict = 0;
  bool hitSince = false;
  int64_t next = 1;
  uint64_t h = pbt::fnv(cfg.name, strlen(cfg.name));
  size_t maxOps = cfg.cap >= 32 ? 400 : 120;
  size_t n = t.draw(maxOps);
  for (size_t i = 0; i < n; i++) {
    size_t op = t.weighted({40, 30, 25, 3, 1});
    int k = static_cast<int>(t.draw(static_cast<uint64_t>(keys)));
    h = pbt::mix(h ^ (op * 1000003 + static_cast<uint64_t>(k)));
    switch (op) {
      case 0: {
        log << " put(" << k << "," << next << ")";
        t.sample_ = log.str();
        bool had = m.find(k) != m.l.end();
        int64_t r = cache->put(k, next);
        PBT_CHECK(t, r == next, "put-return", log.str() << " returned " << r);
        if (m.put(k, next)) {
          evictions++;
          if (hitSince) hitThenEvict++;
        }
        if (had) overwrites++;
        next++;
        break;
      }
      case 1: {
        log << " get(" << k << ")";
        t.sample_ = log.str();
        auto r = cache->get(k);
        auto e = m.get(k);
        PBT_CHECK(t, r == e, "get",
                  log.str() << " = " << (r ? std::to_string(*r) : "none") << " expected "
                            << (e ? std::to_string(*e) : "none"));
        if (e) {
          hits++;
          hitSince = true;
        }
        break;
      }
      case 2: {
        log << " getOrInsert(" << k << "," << next << ")";
        t.sample_ = log.str();
        int calls = 0;
        int64_t r = cache->getOrInsert(k, [&] {
          calls++;
          return next;
        });
        auto e = m.get(k);
        if (e) {
          hitSince = true;
          PBT_CHECK(t, calls == 0, "factory-on-hit", log.str() << " called the factory on a hit");
          PBT_CHECK(t, r == *e, "getorinsert-hit", log.str() << " = " << r << " expected " << *e);
        } else {
          PBT_CHECK(t, calls == 1, "factory-calls", log.str() << " called the factory " << calls << " times");
          PBT_CHECK(t, r == next, "getorinsert-miss", log.str() << " = " << r);
          if (m.put(k, next)) evictions++;
        }
        next++;
        break;
      }
      case 3: {
        log << " getOrInsertThrow(" << k << ")";
        t.sample_ = log.str();
        bool threw = false;
        try {
          int64_t r = cache->getOrInsert(k, []() -> int64_t { throw BadFactory(); });
          auto e = m.get(k);
          PBT_CHECK(t, e && *e == r, "throwing-factory-hit", log.str() << " = " << r);
        } catch (BadFactory&) {
          threw = true;
        }
        if (threw) PBT_CHECK(t, !m.get(k), "throwing-factory-miss", log.str() << " threw although the key is present");
        break;
      }
      default:
        log << " clear()";
        t.sample_ = log.str();
        cache->clear();
        m.l.clear();
        clears++;
        break;
    }
  }
  t.sample_ = log.str();
  // Full read-back: exactly the modelled keys are present (in an order that keeps recency in step).
  for (int k = 0; k < keys; k++) {
    auto r = cache->get(k);
    auto e = m.get(k);
    PBT_CHECK(t, r == e, "final-content",
              log.str() << " final get(" << k << ") = " << (r ? std::to_string(*r) : "none") << " expected "
                        << (e ? std::to_string(*e) : "none"));
  }
  // Recency order: inserting fresh keys evicts the survivors in exactly the modelled order.
  for (size_t i = 0; i < cfg.cap && !m.l.empty(); i++) {
    int fresh = keys + static_cast<int>(i);
    cache->put(fresh, -2 - static_cast<int64_t>(i));
    m.put(fresh, -2 - static_cast<int64_t>(i));
  }
  for (int k = 0; k < keys + static_cast<int>(cfg.cap); k++) {
    auto r = cache->get(k);
    auto e = m.get(k);
    PBT_CHECK(t, r == e, "drain-content", log.str() << " after drain get(" << k << ")");
  }
  if (evictions) t.label("eviction");
  if (hitThenEvict) t.label("eviction-after-hit");
  if (overwrites) t.label("overwrite");
  if (clears) t.label("clear");
  if (cfg.cap == 1) t.label("capacity-1");
  t.label(std::string("cfg:") + cfg.name);
  if (evictions && hits) t.nontrivial(h);
}

}  // namespace

int main(int argc, char** argv) { return pbt::main(argc, argv, {{"lru-model", lruModel}}); }
