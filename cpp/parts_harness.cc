// Property checks for the building blocks of evmzero: memory, pooled stack, hash cache, number conversions, profiles.
#include <sanitizer/asan_interface.h>
#include <sched.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <thread>
#include <vector>

#include "pbt.hpp"
#include "vm/evmzero/memory.h"
#include "vm/evmzero/profiler.h"
#include "vm/evmzero/sha3_cache.h"
#include "vm/evmzero/stack.h"
#include "vm/evmzero/uint256.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace tosca::evmzero;
using pbt::T;
namespace op = tosca::evmzero::op;

namespace {
using Bytes = std::vector<uint8_t>;

Bytes bytes(T& t, size_t n) {
  Bytes b(n);
  uint64_t s = t.draw(0);
  switch (t.draw(3)) {
    case 0:
      for (auto& x : b) x = static_cast<uint8_t>(s = pbt::mix(s));
      break;
    case 1:
      std::fill(b.begin(), b.end(), static_cast<uint8_t>(s));
      break;
    case 2:
      for (size_t i = 0; i < n; i++) b[i] = static_cast<uint8_t>(i + s);
  }
  return b;
}

std::string hex(const Bytes& b) {
  std::ostringstream o;
  for (auto x : b) o << std::hex << (x >> 4) << (x & 15);
  return o.str();
}

// exact is a copy at the very end of its allocation, so that reads behind it are found.
struct Exact {
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  explicit Exact(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { std::copy(b.begin(), b.end(), p.get()); }
  operator std::span<const uint8_t>() const { return {p.get(), n}; }
};

// ---------------------------------------------------------------- memory
struct MemModel {
  Bytes b;
  void grow(uint64_t off, uint64_t n) {
    if (n && off + n > b.size()) b.resize((off + n + 31) / 32 * 32);
  }
};

void memoryModel(T& t) {
  std::ostringstream log;
  std::vector<std::unique_ptr<Memory>> ms;
  std::vector<MemModel> want;
  size_t effects = 0;
  auto size = [&] { return t.weighted({1, 4, 3, 1}) == 0 ? 0 : t.draw(3) ? t.draw(70) : t.draw(700); };
  auto offset = [&] { return t.draw(4) ? t.draw(140) : t.draw(2000); };
  auto far = [&](uint64_t n, uint64_t off) -> uint64_t {  // an empty range may start anywhere
    return n == 0 && t.chance(1, 2) ? (t.chance(1, 2) ? ~uint64_t{0} - t.draw(40) : t.draw(0)) : off;
  };
  auto fresh = [&] {
    switch (t.draw(3)) {
      case 0:
        ms.push_back(std::make_unique<Memory>());
        want.push_back({});
        log << "new ";
        return;
      case 1: {
        auto b = bytes(t, t.draw(100));
        Exact e(b);
        ms.push_back(std::make_unique<Memory>(std::span<const uint8_t>(e)));
        want.push_back({b});
        want.back().b.resize((b.size() + 31) / 32 * 32);
        log << "new(" << b.size() << ") ";
        return;
      }
      default: {
        uint8_t x = static_cast<uint8_t>(t.draw(256));
        switch (t.draw(3)) {
          case 0:
            ms.push_back(std::make_unique<Memory>(std::initializer_list<uint8_t>{}));
            want.push_back({});
            break;
          case 1:
            ms.push_back(std::make_unique<Memory>(std::initializer_list<uint8_t>{x, 2, 3}));
            want.push_back({{x, 2, 3}});
            break;
          case 2:
            ms.push_back(std::make_unique<Memory>(std::initializer_list<uint8_t>{x, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
                                                                                21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32}));
            want.push_back({{x}});
            for (int i = 1; i <= 32; i++) want.back().b.push_back(static_cast<uint8_t>(i));
        }
        want.back().b.resize((want.back().b.size() + 31) / 32 * 32);
        log << "list ";
      }
    }
  };
  auto compare = [&](size_t i, const char* after) {
    auto& m = *ms[i];
    PBT_CHECK(t, m.GetSize() == want[i].b.size(), "size", log.str() << "\nsize " << m.GetSize() << ", expected " << want[i].b.size() << " after " << after);
    for (size_t k = 0; k < want[i].b.size(); k++)
      PBT_CHECK(t, std::as_const(m)[k] == want[i].b[k], "content", log.str() << "\nbyte " << k << " is " << int(m[k]) << ", expected " << int(want[i].b[k]) << " after " << after);
  };
  fresh();
  for (size_t n = 1 + t.draw(25); n > 0; n--) {
    size_t i = t.draw(ms.size());
    auto& m = *ms[i];
    auto& w = want[i];
    const char* what = "";
    switch (t.weighted({3, 4, 4, 3, 5, 2, 2, 2, 1})) {
      case 0: {  // span, written and read
        what = "span";
        uint64_t k = size(), off = far(k, offset());
        log << "span(" << off << "," << k << ") ";
        auto s = m.GetSpan(off, k);
        PBT_CHECK(t, s.size() == k, "span size", log.str() << s.size());
        w.grow(off, k);
        auto b = bytes(t, k);
        for (size_t j = 0; j < k; j++) PBT_CHECK(t, s[j] == w.b[off + j], "span content", log.str());
        for (size_t j = 0; j < k; j++) w.b[off + j] = s[j] = b[j];
        break;
      }
      case 1: {
        what = "read";
        auto b = bytes(t, size());
        Exact e(b);
        uint64_t off = offset();
        log << "read(" << off << "," << b.size() << ") ";
        m.ReadFrom(e, off);
        w.grow(off, b.size());
        std::copy(b.begin(), b.end(), w.b.begin() + static_cast<ptrdiff_t>(b.empty() ? 0 : off));
        break;
      }
      case 2: {
        what = "read with size";
        auto b = bytes(t, size());
        Exact e(b);
        uint64_t off = offset(), k = t.chance(1, 3) ? b.size() : size();
        log << "readWithSize(" << off << "," << b.size() << "," << k << ") ";
        m.ReadFromWithSize(e, off, k);
        w.grow(off, k);
        for (size_t j = 0; j < k; j++) w.b[off + j] = j < b.size() ? b[j] : 0;
        break;
      }
      case 3: {
        what = "write";
        uint64_t k = size(), off = offset();
        log << "write(" << off << "," << k << ") ";
        std::unique_ptr<uint8_t[]> out(new uint8_t[k]);
        m.WriteTo({out.get(), k}, off);
        w.grow(off, k);
        for (size_t j = 0; j < k; j++) PBT_CHECK(t, out[j] == w.b[off + j], "written content", log.str() << "\nbyte " << j);
        break;
      }
      case 4: {
        what = "copy";
        uint64_t k = size(), dst = offset(), src = t.chance(1, 2) ? dst + t.draw(2 * k + 1) : offset();
        if (src >= k) src -= t.chance(1, 2) ? k : 0;
        log << "copy(" << dst << "," << src << "," << k << ") ";
        m.MemCopy(dst, src, k);
        w.grow(src, k);
        w.grow(dst, k);
        Bytes tmp;
        for (size_t j = 0; j < k; j++) tmp.push_back(w.b[src + j]);
        for (size_t j = 0; j < k; j++) w.b[dst + j] = tmp[j];
        break;
      }
      case 5: {
        what = "grow";
        uint64_t k = size(), off = far(k, offset());
        log << "grow(" << off << "," << k << ") ";
        m.Grow(off, k);
        w.grow(off, k);
        break;
      }
      case 6:
        what = "index";
        if (!w.b.empty()) {
          size_t at = t.draw(w.b.size());
          m[at] = w.b[at] = static_cast<uint8_t>(t.draw(256));
          log << "set(" << at << ") ";
        }
        break;
      case 7:
        what = "new";
        if (ms.size() < 4) {
          if (t.chance(1, 2)) {
            ms.push_back(std::make_unique<Memory>(m));
            want.push_back(MemModel(want[i]));
            log << "clone" << i << " ";
          } else {
            fresh();
          }
        }
        break;
      case 8: {
        what = "assignment";
        size_t k = t.draw(ms.size());
        *ms[i] = *ms[k];
        want[i] = MemModel(want[k]);
        log << i << "=" << k << " ";
        break;
      }
    }
    effects += !want[i].b.empty();
    for (size_t k = 0; k < ms.size(); k++) {
      compare(k, what);
      PBT_CHECK(t, (*ms[i] == *ms[k]) == (want[i].b == want[k].b), "equality", log.str() << "\n" << i << " and " << k);
      PBT_CHECK(t, (*ms[i] != *ms[k]) == (want[i].b != want[k].b), "inequality", log.str() << "\n" << i << " and " << k);
    }
    t.label(what);
  }
  if (t.chance(1, 10)) {  // printed: every byte, in order
    std::ostringstream o;
    auto flags = o.flags();
    o << *ms[0];
    PBT_CHECK(t, o.flags() == flags, "printing changes the format of the stream", log.str());
    std::istringstream in(o.str());
    std::string word;
    Bytes got;
    while (in >> word)
      if (word.back() != ':') got.push_back(static_cast<uint8_t>(std::strtoul(word.c_str(), nullptr, 16)));
    PBT_CHECK(t, got == want[0].b, "printed memory", log.str() << "\n" << o.str());
  }
  if (effects > 1) t.nontrivial(pbt::fnv(log.str()));
  t.sample(log.str());
}

// ---------------------------------------------------------------- stack
uint256_t word(T& t) {
  auto limb = [&]() -> uint64_t {
    switch (t.draw(4)) {
      case 0:
        return 0;
      case 1:
        return ~uint64_t{0};
      case 2:
        return t.draw(5);
    }
    return t.draw(0);
  };
  uint256_t v;
  for (int i = 0; i < 4; i++) v = (v << 64) | uint256_t{limb()};
  return t.chance(1, 2) ? uint256_t{t.draw(9)} : v;
}

void stackModel(T& t) {
  struct One {
    std::unique_ptr<Stack> s;
    std::vector<uint256_t> w;  // bottom to top
  };
  std::vector<One> all;
  std::ostringstream log;
  size_t effects = 0;
  auto fresh = [&] {
    if (t.chance(1, 2)) {
      all.push_back({std::make_unique<Stack>(), {}});
      log << "new ";
      return;
    }
    auto a = word(t), b = word(t), c = word(t);
    all.push_back({std::make_unique<Stack>(std::initializer_list<uint256_t>{a, b, c}), {a, b, c}});
    log << "list ";
  };
  fresh();
  for (size_t n = 1 + t.draw(30); n > 0; n--) {
    size_t i = t.draw(all.size());
    auto& x = all[i];
    switch (t.weighted({6, 4, 2, 2, 2, 2, 1})) {
      case 0: {
        size_t k = 1 + (t.chance(1, 25) ? t.draw(1024) : t.draw(3));
        auto v = word(t);
        for (; k > 0 && x.w.size() < 1024; k--) {
          x.s->Push(v);
          x.w.push_back(v);
          v = v + 1;
        }
        log << i << ":push ";
        effects++;
        break;
      }
      case 1:
        for (size_t k = 1 + t.draw(3); k > 0 && !x.w.empty(); k--) {
          auto v = x.s->Pop();
          PBT_CHECK(t, v == x.w.back(), "popped value", log.str());
          x.w.pop_back();
        }
        log << i << ":pop ";
        break;
      case 2:
        if (!x.w.empty()) {
          size_t k = t.draw(x.w.size());
          (*x.s)[k] = x.w[x.w.size() - 1 - k] = word(t);
          log << i << ":set" << k << " ";
        }
        break;
      case 3: {  // through the top pointer, like the interpreter
        auto top = x.s->Top();
        if (x.w.size() < 1000 && t.chance(1, 2)) {
          auto v = word(t);
          *--top = v;
          x.w.push_back(v);
        } else if (!x.w.empty()) {
          PBT_CHECK(t, *top == x.w.back(), "top", log.str());
          top++;
          x.w.pop_back();
        }
        x.s->SetTop(top);
        log << i << ":top ";
        break;
      }
      case 4:
        if (all.size() < 5) {
          if (t.chance(1, 2)) {
            One y{std::make_unique<Stack>(*x.s), x.w};
            log << "clone" << i << " ";
            all.push_back(std::move(y));
          } else {
            fresh();
          }
        }
        break;
      case 5: {
        size_t k = t.draw(all.size());
        *all[i].s = *all[k].s;
        if (i != k) all[i].w = all[k].w;
        log << i << "=" << k << " ";
        effects++;
        break;
      }
      case 6:
        if (all.size() > 1) {
          all.erase(all.begin() + static_cast<ptrdiff_t>(i));
          log << "drop" << i << " ";
        }
        break;
    }
    for (size_t k = 0; k < all.size(); k++) {
      auto& y = all[k];
      PBT_CHECK(t, y.s->GetSize() == y.w.size(), "size", log.str() << "\n" << k << ": " << y.s->GetSize() << ", expected " << y.w.size());
      PBT_CHECK(t, y.s->GetMaxSize() == 1024, "maximal size", y.s->GetMaxSize());
      for (size_t j = 0; j < y.w.size(); j++)
        PBT_CHECK(t, std::as_const(*y.s)[j] == y.w[y.w.size() - 1 - j], "content", log.str() << "\n" << k << " at " << j);
      size_t other = t.draw(all.size());
      PBT_CHECK(t, (*y.s == *all[other].s) == (y.w == all[other].w), "equality", log.str() << "\n" << k << " and " << other);
      PBT_CHECK(t, (*y.s != *all[other].s) == (y.w != all[other].w), "inequality", log.str() << "\n" << k << " and " << other);
    }
  }
  if (t.chance(1, 20) && all[0].w.size() < 12) {  // printed: every element, from the top
    std::ostringstream o, expected;
    o << *all[0].s;
    for (size_t k = all[0].w.size(); k > 0; k--) expected << " " << all[0].w[k - 1];
    std::string got;
    for (char c : o.str())
      if (c == ' ' || (c >= '0' && c <= '9')) got += c;
    std::istringstream a(got), b(expected.str());
    std::string x, y;
    bool more = true;
    while (more) {
      x = y = "";
      a >> x;
      b >> y;
      PBT_CHECK(t, x == y, "printed stack", log.str() << "\n" << o.str());
      more = !x.empty();
    }
  }
  if (effects > 1) t.nontrivial(pbt::fnv(log.str(), t.draw(2)));
  t.label("stacks " + std::to_string(all.size()));
  t.sample(log.str());
}

// stackPool: however many stacks were used, one after the other or at once, by several threads: no more are retained than were in use at once.
void stackPool(T& t) {
  size_t threads = 1 + t.draw(4), width = 1 + t.draw(5), rounds = 3 + t.draw(12);
  std::vector<uint64_t> seeds;
  for (size_t i = 0; i < threads; i++) seeds.push_back(t.draw(0));
  std::vector<std::string> bad(threads);
  auto work = [&](size_t id, size_t n) {
    uint64_t s = seeds[id];
    for (size_t r = 0; r < n; r++) {
      std::vector<std::unique_ptr<Stack>> held;
      for (size_t k = 0; k < width; k++) {
        held.push_back(std::make_unique<Stack>());
        for (int j = 0; j < 3; j++) held.back()->Push(uint256_t{pbt::mix(s + k * 8 + static_cast<uint64_t>(j))});
      }
      for (size_t k = 0; k < width; k++) {
        auto& st = *held[k];
        for (int j = 2; j >= 0; j--)
          if (st.GetSize() != size_t(j) + 1 || st.Pop() != uint256_t{pbt::mix(s + k * 8 + static_cast<uint64_t>(j))}) bad[id] = "a stack in use was changed by another one";
      }
      while (!held.empty()) {
        s = pbt::mix(s);
        held.erase(held.begin() + static_cast<ptrdiff_t>(s % held.size()));
      }
    }
  };
  auto run = [&](size_t n) {
    std::vector<std::thread> ts;
    for (size_t i = 1; i < threads; i++) ts.emplace_back(work, i, n);
    work(0, n);
    for (auto& x : ts) x.join();
  };
  {  // as many as can be in use at once
    std::vector<std::unique_ptr<Stack>> held;
    for (size_t k = 0; k < threads * width; k++) held.push_back(std::make_unique<Stack>());
    std::set<uint256_t*> tops;
    for (auto& h : held) tops.insert(h->Top());
    PBT_CHECK(t, tops.size() == held.size(), "stacks share their storage", tops.size() << " of " << held.size());
  }
  size_t before = __sanitizer_get_current_allocated_bytes();
  run(rounds);
  size_t after = __sanitizer_get_current_allocated_bytes();
  for (auto& b : bad) PBT_CHECK(t, b.empty(), "stacks interfere", b);
  PBT_CHECK(t, after < before + 32 * 1024, "stacks are lost", threads << " threads, " << width << " at once, " << rounds << " rounds: " << after - before << " bytes more are allocated than before");
  t.nontrivial(pbt::mix(seeds[0]) ^ threads);
  t.label("threads " + std::to_string(threads));
  t.sample(std::to_string(threads) + " threads use " + std::to_string(width) + " stacks each, " + std::to_string(rounds) + " times");
}

// ---------------------------------------------------------------- hash cache
void hashCache(T& t) {
  static Sha3Cache shared;  // its content survives the cases
  Sha3Cache own;
  std::ostringstream log;
  std::vector<Bytes> pool;
  auto key = [&] {
    static const size_t sizes[] = {32, 64, 0, 1, 31, 33, 63, 65, 96, 128, 136};
    size_t n = t.draw(6) < 4 ? sizes[t.draw(2)] : t.chance(1, 2) ? sizes[t.draw(11)] : t.draw(300);
    if (!pool.empty() && t.chance(1, 3)) {  // one that differs in a single place
      Bytes b = pool[t.draw(pool.size())];
      if (!b.empty()) b[t.draw(b.size())] ^= static_cast<uint8_t>(1u << t.draw(8));
      return b;
    }
    return bytes(t, n);
  };
  size_t repeated = 0;
  std::set<Bytes> seen;
  for (size_t n = 2 + t.draw(20); n > 0; n--) {
    if (pool.empty() || t.chance(1, 2)) pool.push_back(key());
    const Bytes& b = pool[t.draw(pool.size())];
    repeated += !seen.insert(b).second;
    Exact e(b);
    auto& c = t.chance(1, 2) ? own : shared;
    uint256_t got = c.Hash(e);
    auto want = ethash::keccak256(b.data(), b.size());
    auto have = intx::be::store<ethash::hash256>(got);
    PBT_CHECK(t, memcmp(want.bytes, have.bytes, 32) == 0, "hash of " + std::string(b.size() == 32 ? "32" : b.size() == 64 ? "64" : "other") + " bytes", hex(b));
    log << b.size() << " ";
  }
  if (repeated) t.nontrivial(pbt::fnv(log.str(), t.draw(0)));
  t.label(repeated ? "repeated keys" : "no repeated key");
  t.sample("keys of sizes " + log.str());
}

// ---------------------------------------------------------------- conversions
void conversions(T& t) {
  std::array<uint8_t, 32> be;
  auto b = bytes(t, 32);
  std::copy(b.begin(), b.end(), be.begin());
  if (t.chance(1, 3)) std::fill(be.begin(), be.begin() + static_cast<ptrdiff_t>(t.draw(33)), 0);
  uint256_t v = 0;
  for (auto x : be) v = (v << 8) | uint256_t{x};
  std::string in = hex(Bytes(be.begin(), be.end()));
  evmc::bytes32 eb;
  std::copy(be.begin(), be.end(), eb.bytes);
  PBT_CHECK(t, ToUint256(eb) == v, "from 32 bytes", in);
  auto eb2 = ToEvmcBytes(v);
  PBT_CHECK(t, memcmp(eb2.bytes, be.data(), 32) == 0, "to 32 bytes", in);
  auto a = ToEvmcAddress(v);
  PBT_CHECK(t, memcmp(a.bytes, be.data() + 12, 20) == 0, "to address", in);
  auto low = v & ((uint256_t{1} << 160) - 1);
  PBT_CHECK(t, ToUint256(a) == low, "from address", in);
  auto h = ToEthash(v);
  PBT_CHECK(t, memcmp(h.bytes, be.data(), 32) == 0, "to hash", in);
  PBT_CHECK(t, ToUint256(h) == v, "from hash", in);
  auto le = ToByteArrayLe(v);
  for (size_t i = 0; i < 32; i++) {
    PBT_CHECK(t, le[i] == be[31 - i], "to little-endian bytes", in << " at " << i);
    PBT_CHECK(t, ToBytes(v)[i] == be[31 - i], "bytes", in << " at " << i);
    PBT_CHECK(t, ToBytes(std::as_const(v))[i] == be[31 - i], "const bytes", in << " at " << i);
  }
  alignas(32) std::array<uint8_t, 32> le2 = le;
  PBT_CHECK(t, ToUint256(le2) == v, "from little-endian bytes", in);
  std::hash<uint256_t> hash;
  uint256_t w = v;
  PBT_CHECK(t, hash(v) == hash(w), "hash of equal numbers", in);
  size_t changed = 0;  // most changes of a bit change the hash
  for (unsigned i = 0; i < 256; i++) changed += hash(v ^ (uint256_t{1} << i)) != hash(v);
  PBT_CHECK(t, changed >= 192, "hash ignores parts of a number", in << ": " << changed << " of 256 bits matter");
  PBT_CHECK(t, kUint256Max + 1 == uint256_t{0} && ~kUint256Max == uint256_t{0}, "maximum", "");
  t.nontrivial(pbt::fnv(be.data(), 32));
  t.sample(in);
}

// ---------------------------------------------------------------- profiles
template <ProfilerMode Mode>
struct Profiling {
  T& t;
  Profiler<Mode>& p;
  std::map<int, uint64_t>& calls;
  uint64_t& runs;
  std::ostringstream& log;
  size_t budget = 60;

  static bool counted(op::OpCode o) { return Mode == ProfilerMode::kFull || op::IsExternalOpCode(o) || op::IsCallOpCode(o); }

  void run(int depth) {
    evmc_message m{};
    m.depth = depth;
    InterpreterArgs args;
    args.message = &m;
    internal::Context& ctx = contexts(depth);
    ctx.message = &m;
    p.PreRun(args);
    log << "run" << depth << "{";
    for (size_t n = t.draw(5); n > 0 && budget > 0; n--) {
      budget--;
      static const op::OpCode callOps[] = {op::CALL, op::CALLCODE, op::DELEGATECALL, op::STATICCALL, op::CREATE, op::CREATE2};
      op::OpCode o = t.chance(1, 3) ? callOps[t.draw(6)] : static_cast<op::OpCode>(t.draw(256));
      p.PreInstruction(o, ctx);
      if (op::IsCallOpCode(o) && depth < internal::kMaxCallDepth && t.chance(2, 3)) run(depth + 1);
      p.PostInstruction(o, ctx);
      if (counted(o)) calls[o]++;
      log << int(o) << " ";
    }
    p.PostRun(args);
    if (depth == 0) runs++;
    log << "}";
  }
  static internal::Context& contexts(int depth) {
    static std::map<int, std::unique_ptr<internal::Context>> c;
    auto& x = c[depth % 70];
    if (!x) x = std::make_unique<internal::Context>();
    return *x;
  }
};

template <ProfilerMode Mode>
void compareProfile(T& t, const Profile<Mode>& p, std::map<int, uint64_t>& calls, uint64_t runs, const std::string& what, const std::string& log) {
  for (int i = 0; i < 256; i++) {
    auto s = p.GetInstructionStats(static_cast<op::OpCode>(i));
    PBT_CHECK(t, s.num_calls == calls[i], what + " count of an instruction", log << "\n" << i << ": " << s.num_calls << ", expected " << calls[i]);
    PBT_CHECK(t, s.num_calls > 0 || s.total_ticks == 0, what + " time of an instruction that was not executed", log << "\n" << i << ": " << s.total_ticks);
  }
  PBT_CHECK(t, p.GetInterpreterStats().num_calls == runs, what + " runs", log << "\n" << p.GetInterpreterStats().num_calls << ", expected " << runs);
}

template <ProfilerMode Mode>
void profileCase(T& t) {
  std::ostringstream log;
  std::vector<std::unique_ptr<Profiler<Mode>>> ps;
  std::vector<std::map<int, uint64_t>> calls;
  std::vector<uint64_t> runs, elapsed;
  // on one processor, its time stamps never go back
  cpu_set_t old, one;
  CPU_ZERO(&one);
  CPU_SET(static_cast<size_t>(std::max(0, sched_getcpu())), &one);
  bool pinned = sched_getaffinity(0, sizeof old, &old) == 0 && sched_setaffinity(0, sizeof one, &one) == 0;
  struct Unpin {
    cpu_set_t* s;
    ~Unpin() {
      if (s) sched_setaffinity(0, sizeof *s, s);
    }
  } unpin{pinned ? &old : nullptr};
  size_t k = 1 + t.draw(3);
  for (size_t i = 0; i < k; i++) {
    ps.push_back(std::make_unique<Profiler<Mode>>());
    calls.emplace_back();
    runs.push_back(0);
    elapsed.push_back(0);
  }
  size_t executed = 0;
  for (size_t n = 1 + t.draw(5); n > 0; n--) {
    size_t i = t.draw(k);
    switch (t.weighted({5, 2, 1})) {
      case 0: {
        log << "\n" << i << ": ";
        Profiling<Mode> x{t, *ps[i], calls[i], runs[i], log};
        // in the deep, or from the start
        auto start = internal::Now();
        x.run(t.chance(1, 6) ? internal::kMaxCallDepth - static_cast<int>(t.draw(4)) : 0);
        elapsed[i] += internal::Now() - start;
        executed++;
        break;
      }
      case 1: {
        size_t j = t.draw(k);
        log << "\nmerge " << j << " into " << i;
        Profile<Mode> other = ps[j]->Collect();
        Profile<Mode> mine = ps[i]->Collect();
        ps[i]->Merge(other);
        for (int o = 0; o < 256; o++) {
          auto a = mine.GetInstructionStats(static_cast<op::OpCode>(o)), b = other.GetInstructionStats(static_cast<op::OpCode>(o)),
               c = ps[i]->Collect().GetInstructionStats(static_cast<op::OpCode>(o));
          PBT_CHECK(t, c.total_ticks == a.total_ticks + b.total_ticks, "merged time", log.str() << "\n" << o);
        }
        PBT_CHECK(t, ps[i]->Collect().GetInterpreterStats().total_ticks == mine.GetInterpreterStats().total_ticks + other.GetInterpreterStats().total_ticks, "merged time of runs", log.str());
        auto add = calls[j];
        for (auto& [o, c] : add) calls[i][o] += c;
        runs[i] += uint64_t{runs[j]};
        elapsed[i] += uint64_t{elapsed[j]};
        break;
      }
      case 2:
        log << "\nreset " << i;
        ps[i]->Reset();
        calls[i].clear();
        runs[i] = elapsed[i] = 0;
        break;
    }
    for (size_t j = 0; j < k; j++) {
      auto& p = ps[j]->Collect();
      compareProfile<Mode>(t, p, calls[j], runs[j], "profile", log.str());
      if (!pinned) continue;
      // the times of the instructions, of calls without what they call, do not overlap
      uint64_t sum = 0;
      for (int o = 0; o < 256; o++) {
        uint64_t x = p.GetInstructionStats(static_cast<op::OpCode>(o)).total_ticks;
        PBT_CHECK(t, x <= elapsed[j], "time of an instruction beyond that of all", log.str() << "\n" << o << ": " << x << " of " << elapsed[j]);
        sum += x;
      }
      PBT_CHECK(t, sum <= elapsed[j], "time of the instructions beyond that of the runs", log.str() << "\n" << sum << " of " << elapsed[j]);
      PBT_CHECK(t, p.GetInterpreterStats().total_ticks <= elapsed[j], "time of the interpreter beyond that of the runs", log.str());
    }
  }
  // printed
  char name[] = "/tmp/verif-parts-XXXXXX";
  int fd = mkstemp(name);
  PBT_CHECK(t, fd >= 0, "harness", "no temporary file");
  close(fd);
  setenv("EVMZERO_PROFILE_FILE", name, 1);
  size_t dumps = 1 + t.draw(2);
  for (size_t i = 0; i < dumps; i++) ps[0]->Collect().Dump();
  unsetenv("EVMZERO_PROFILE_FILE");
  std::ifstream in(name);
  std::map<std::string, uint64_t> printed;
  std::map<std::string, int> lines;
  std::string line;
  while (std::getline(in, line)) {
    auto comma = line.find(',');
    if (comma == std::string::npos || line.find(':') != std::string::npos) continue;
    printed[line.substr(0, comma)] = std::strtoull(line.c_str() + comma + 1, nullptr, 10);
    lines[line.substr(0, comma)]++;
  }
  in.close();
  unlink(name);
  for (int o = 0; o < 256; o++) {
    auto c = static_cast<op::OpCode>(o);
    std::string n = op::ToString(c);
    bool listed = op::IsUsedOpCode(c) && Profiling<Mode>::counted(c);
    if (!listed) continue;
    PBT_CHECK(t, lines[n] == int(dumps), "printed lines of an instruction", n << ": " << lines[n]);
    PBT_CHECK(t, printed[n] == calls[0][o], "printed count of an instruction", log.str() << "\n" << n << ": " << printed[n] << ", expected " << calls[0][o]);
  }
  PBT_CHECK(t, lines["INTERPRETER"] == int(dumps) && printed["INTERPRETER"] == runs[0], "printed runs", log.str() << "\n" << printed["INTERPRETER"] << ", expected " << runs[0]);
  if (executed) t.nontrivial(pbt::fnv(log.str()));
  t.label(Mode == ProfilerMode::kFull ? "full" : "external");
  t.sample(log.str());
}

void profiles(T& t) {
  if (t.draw(2))
    profileCase<ProfilerMode::kFull>(t);
  else
    profileCase<ProfilerMode::kExternal>(t);
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::main(argc, argv,
                   {{"memory-model", memoryModel},
                    {"stack-model", stackModel},
                    {"stack-pool", stackPool},
                    {"hash-cache", hashCache},
                    {"conversions", conversions},
                    {"profiles", profiles}});
}
