// Property checks for cpp/common (content hashing) and the C++ opcode catalogue.
#include <algorithm>
#include <array>
#include <bitset>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>

#include "common/hash_utils.h"
#include "pbt.hpp"
#include "vm/evmzero/opcodes.h"

using pbt::T;

namespace {
// ---------------------------------------------------------------- content hashing
template <size_t N>
void hashCase(T& t) {
  // Two independent, differently surrounded and differently aligned copies of the same content.
  alignas(8) uint8_t bufA0[N + 24], bufB[N + 24];
  uint8_t* bufA = bufA0 + t.draw(8);
  const size_t offB = t.draw(16);
  uint8_t fillA = static_cast<uint8_t>(t.draw(256)), fillB = static_cast<uint8_t>(t.draw(256));
  memset(bufA0, fillA, sizeof bufA0);
  memset(bufB, fillB, sizeof bufB);
  std::array<uint8_t, N> c;
  unsigned mode = static_cast<unsigned>(t.draw(3));
  for (auto& b : c) b = mode == 0 ? static_cast<uint8_t>(t.draw(256)) : mode == 1 ? static_cast<uint8_t>(t.draw(2)) : 0;
  memcpy(bufA, c.data(), N);
  memcpy(bufB + offB, c.data(), N);
  using Span = std::span<const uint8_t, N>;
  tosca::HashBytes<N> h1, h2;
  size_t a = h1(Span(bufA, N)), b = h2(Span(bufB + offB, N));
  std::ostringstream o;
  o << "HashBytes<" << N << ">(";
  for (auto x : c) o << std::hex << (x >> 4) << (x & 15);
  o << ")";
  t.sample_ = o.str();
  PBT_CHECK(t, a == b, "content-only", o.str() << " depends on the surrounding memory or on the object");
  // Metamorphic: every byte, and its position, contributes. The hash is not collision free, so a
  // relation has to hold for most of a number of independent contents, not for each.
  {
    size_t i = t.draw(N), changed = 0, total = 0;
    for (int k = 0; k < 4; k++) {
      std::array<uint8_t, N> r;
      uint64_t s = t.draw(0);
      for (auto& x : r) x = static_cast<uint8_t>(s = pbt::mix(s));
      size_t h = h1(Span(r));
      for (int bit = 0; bit < 8; bit++) {
        r[i] ^= static_cast<uint8_t>(1u << bit);
        changed += h1(Span(r)) != h;
        r[i] ^= static_cast<uint8_t>(1u << bit);
        total++;
      }
    }
    PBT_CHECK(t, changed * 4 >= total * 3, "byte-sensitivity", "HashBytes<" << N << ">: only " << changed << " of " << total << " flips of a bit of byte " << i << " change the hash");
  }
  if constexpr (N > 1) {
    size_t x = t.draw(N), y = (x + 1 + t.draw(N - 1)) % N, changed = 0, total = 0;
    for (int k = 0; k < 12; k++) {
      std::array<uint8_t, N> r;
      uint64_t s = t.draw(0);
      for (auto& v : r) v = static_cast<uint8_t>(s = pbt::mix(s));
      if (r[x] == r[y]) r[x] ^= 0x55;
      size_t h = h1(Span(r));
      std::swap(r[x], r[y]);
      changed += h1(Span(r)) != h;
      total++;
    }
    PBT_CHECK(t, changed * 4 >= total * 3, "position-sensitivity", "HashBytes<" << N << ">: only " << changed << " of " << total << " swaps of bytes " << x << " and " << y << " change the hash");
    t.label("swap");
  }
  if (mode == 0) t.nontrivial(pbt::fnv(c.data(), N, N));
  t.label("N=" + std::to_string(N));
}

// Combining is a left fold over the sequence, so it splits at any point, and is sensitive to
// the values, to their order, and to the seed.
template <typename W>
void hashFold(T& t) {
  size_t n = t.draw(12);
  std::vector<W> v(n);
  for (auto& x : v) x = static_cast<W>(t.draw(3) ? t.draw(0) : t.draw(4));
  size_t seed0 = t.draw(2) ? t.draw(0) : 0;
  size_t whole = seed0, split = seed0, fold = seed0;
  tosca::HashRange(whole, v.begin(), v.end());
  auto mid = v.begin() + static_cast<std::ptrdiff_t>(t.draw(n + 1));
  tosca::HashRange(split, v.begin(), mid);
  tosca::HashRange(split, mid, v.end());
  for (auto& x : v) tosca::CombineHash(fold, x);
  std::ostringstream o;
  o << "fold of " << n << " x " << sizeof(W) << " bytes from seed " << seed0;
  t.sample_ = o.str();
  PBT_CHECK(t, whole == split, "range-split", o.str() << ": " << whole << " != " << split);
  PBT_CHECK(t, whole == fold, "range-fold", o.str() << ": " << whole << " != " << fold);
  if (n) {
    size_t i = t.draw(n), value = 0, length = 0, seeds = 0, order = 0, total = 0;
    for (int k = 0; k < 16; k++) {
      std::vector<W> w(n);
      uint64_t r = t.draw(0);
      for (auto& x : w) x = static_cast<W>(r = pbt::mix(r));
      size_t s0 = pbt::mix(r), h = s0, h2 = s0, h3 = s0, h4 = s0 ^ 1, h5 = s0;
      tosca::HashRange(h, w.begin(), w.end());
      tosca::HashRange(h3, w.begin(), w.end() - 1);
      tosca::HashRange(h4, w.begin(), w.end());
      auto rev = w;
      std::swap(rev[0], rev[n - 1]);
      tosca::HashRange(h5, rev.begin(), rev.end());
      w[i] = static_cast<W>(w[i] ^ static_cast<W>(1ull << (r % (sizeof(W) * 8))));
      tosca::HashRange(h2, w.begin(), w.end());
      value += h2 != h;
      length += h3 != h;
      seeds += h4 != h;
      order += h5 != h || rev[0] == rev[n - 1];
      total++;
    }
    PBT_CHECK(t, value * 4 >= total * 3, "fold-value-sensitivity", o.str() << ": element " << i << " changes only " << value << " of " << total << " hashes");
    PBT_CHECK(t, length * 4 >= total * 3, "fold-length-sensitivity", o.str() << ": the last element changes only " << length << " of " << total << " hashes");
    PBT_CHECK(t, seeds * 4 >= total * 3, "fold-seed-sensitivity", o.str() << ": the seed changes only " << seeds << " of " << total << " hashes");
    PBT_CHECK(t, n == 1 || order * 4 >= total * 3, "fold-order-sensitivity", o.str() << ": the order changes only " << order << " of " << total << " hashes");
    t.nontrivial(pbt::fnv(v.data(), n * sizeof(W), seed0));
  } else {
    PBT_CHECK(t, whole == seed0, "empty-range", o.str());
  }
  t.label("fold");
}

void hashing(T& t) {
  switch (t.draw(15)) {
    case 14: return hashFold<uint8_t>(t);
    case 13: return hashFold<uint32_t>(t);
    case 12: return hashFold<uint64_t>(t);
    case 0: return hashCase<1>(t);
    case 1: return hashCase<2>(t);
    case 2: return hashCase<3>(t);
    case 3: return hashCase<4>(t);
    case 4: return hashCase<5>(t);
    case 5: return hashCase<7>(t);
    case 6: return hashCase<8>(t);
    case 7: return hashCase<20>(t);
    case 8: return hashCase<32>(t);
    case 9: return hashCase<33>(t);
    case 10: return hashCase<64>(t);
    default: return hashCase<67>(t);
  }
}

// Distribution over structured key families: consecutive counters, single-bit keys,
// mapping-slot style 64-byte keys. At most a handful of collisions is tolerated.
template <size_t N>
void hashFamily(T& t) {
  std::set<size_t> seen;
  size_t n = 2000;
  unsigned fam = static_cast<unsigned>(t.draw(4));
  uint64_t base = t.draw(0);
  size_t off = N >= 8 ? t.draw(N - 7) : 0;
  for (size_t i = 0; i < n; i++) {
    alignas(8) uint8_t k[N] = {};
    uint64_t v = fam == 0 ? i : fam == 1 ? base + i : fam == 2 ? pbt::mix(base + i) : (i << 20) ^ base;
    for (size_t j = 0; j < std::min<size_t>(8, N - off); j++) k[off + j] = static_cast<uint8_t>(v >> (8 * (7 - j)));
    if (fam == 3) memcpy(k, &base, std::min<size_t>(4, N));
    seen.insert(tosca::HashBytes<N>()(std::span<const uint8_t, N>(k, N)));
  }
  std::ostringstream o;
  o << "family " << fam << " N=" << N << " off=" << off << " base=" << base << ": " << seen.size() << "/" << n << " distinct hashes";
  t.sample_ = o.str();
  PBT_CHECK(t, seen.size() >= n * 9 / 10, "distribution", o.str());
  t.nontrivial(pbt::mix(base ^ (fam * 977 + N * 31 + off)));
  t.label("family" + std::to_string(fam));
}
void hashFamilies(T& t) { t.draw(2) ? hashFamily<64>(t) : hashFamily<32>(t); }

// ---------------------------------------------------------------- opcode catalogue
namespace op = tosca::evmzero::op;

// Independent catalogue (Ethereum yellow paper / EIPs up to Cancun).
struct Ref {
  const char* names[256] = {};
  Ref() {
    auto set = [&](int v, const char* n) { names[v] = n; };
    static const char* a[] = {"STOP", "ADD", "MUL", "SUB", "DIV", "SDIV", "MOD", "SMOD", "ADDMOD", "MULMOD", "EXP", "SIGNEXTEND"};
    for (int i = 0; i < 12; i++) set(i, a[i]);
    static const char* b[] = {"LT", "GT", "SLT", "SGT", "EQ", "ISZERO", "AND", "OR", "XOR", "NOT", "BYTE", "SHL", "SHR", "SAR"};
    for (int i = 0; i < 14; i++) set(0x10 + i, b[i]);
    set(0x20, "SHA3");
    static const char* c[] = {"ADDRESS", "BALANCE", "ORIGIN", "CALLER", "CALLVALUE", "CALLDATALOAD", "CALLDATASIZE",
                              "CALLDATACOPY", "CODESIZE", "CODECOPY", "GASPRICE", "EXTCODESIZE", "EXTCODECOPY",
                              "RETURNDATASIZE", "RETURNDATACOPY", "EXTCODEHASH", "BLOCKHASH", "COINBASE", "TIMESTAMP",
                              "NUMBER", "PREVRANDAO", "GASLIMIT", "CHAINID", "SELFBALANCE", "BASEFEE", "BLOBHASH", "BLOBBASEFEE"};
    for (int i = 0; i < 27; i++) set(0x30 + i, c[i]);
    static const char* d[] = {"POP", "MLOAD", "MSTORE", "MSTORE8", "SLOAD", "SSTORE", "JUMP", "JUMPI", "PC", "MSIZE",
                              "GAS", "JUMPDEST", "TLOAD", "TSTORE", "MCOPY", "PUSH0"};
    for (int i = 0; i < 16; i++) set(0x50 + i, d[i]);
    static std::string s[96];
    int k = 0;
    auto fam = [&](int base, int n, const char* p) {
      for (int i = 0; i < n; i++) {
        s[k] = std::string(p) + std::to_string(i + (strcmp(p, "LOG") ? 1 : 0));
        set(base + i, s[k++].c_str());
      }
    };
    fam(0x60, 32, "PUSH");
    fam(0x80, 16, "DUP");
    fam(0x90, 16, "SWAP");
    fam(0xa0, 5, "LOG");
    static const char* e[] = {"CREATE", "CALL", "CALLCODE", "RETURN", "DELEGATECALL", "CREATE2"};
    for (int i = 0; i < 6; i++) set(0xf0 + i, e[i]);
    set(0xfa, "STATICCALL");
    set(0xfd, "REVERT");
    set(0xfe, "INVALID");
    set(0xff, "SELFDESTRUCT");
  }
};
const Ref kRef;

struct CatEntry {
  std::string name;
  int value;
};
const std::vector<CatEntry> kCatalog = {
#define EVMZERO_OPCODE(name, value) {#name, value},
#include "vm/evmzero/opcodes.inc"
};
const std::vector<int> kUnused = {
#define EVMZERO_OPCODE_UNUSED(value) value,
#include "vm/evmzero/opcodes.inc"
};

bool nameMatches(const std::string& have, int v) {
  if (!kRef.names[v]) return false;
  std::string ref = kRef.names[v];
  if (have == ref) return true;
  // names in circulation for the same instruction
  static const std::map<int, std::vector<std::string>> alias = {
      {0x20, {"KECCAK256"}}, {0x44, {"DIFFICULTY", "RANDOM"}}, {0xff, {"SUICIDE"}}};
  auto it = alias.find(v);
  return it != alias.end() && std::find(it->second.begin(), it->second.end(), have) != it->second.end();
}

void opcodeByte(T& t) {
  int v = static_cast<int>(t.draw(256));
  auto o = static_cast<op::OpCode>(v);
  size_t inCat = static_cast<size_t>(std::count_if(kCatalog.begin(), kCatalog.end(), [&](auto& e) { return e.value == v; }));
  size_t inUnused = static_cast<size_t>(std::count(kUnused.begin(), kUnused.end(), v));
  std::ostringstream s;
  s << "byte 0x" << std::hex << v << std::dec << " name=" << op::ToString(o) << " used=" << op::IsUsedOpCode(o);
  t.sample_ = s.str();
  PBT_CHECK(t, inCat + inUnused == 1, "partition", s.str() << ": listed " << inCat << "x as used, " << inUnused << "x as unused");
  PBT_CHECK(t, op::kNumOpCodes == kCatalog.size() && op::kNumUnusedOpCodes == kUnused.size() && op::kNumUsedAndUnusedOpCodes == 256,
            "counts", "counts " << op::kNumOpCodes << "+" << op::kNumUnusedOpCodes << "=" << op::kNumUsedAndUnusedOpCodes);
  PBT_CHECK(t, op::IsUsedOpCode(o) == (inCat == 1), "used", s.str());
  PBT_CHECK(t, (inCat == 1) == (kRef.names[v] != nullptr), "instruction-set", s.str() << ": defined by the EVM: " << (kRef.names[v] ? kRef.names[v] : "no"));
  std::string name = op::ToString(o);
  if (inCat) {
    PBT_CHECK(t, nameMatches(name, v), "name", s.str() << " expected " << kRef.names[v]);
  } else {
    PBT_CHECK(t, name == "UNKNOWN", "unknown-name", s.str());
  }
  bool call = v == 0xf1 || v == 0xf2 || v == 0xf4 || v == 0xfa || v == 0xf0 || v == 0xf5;
  PBT_CHECK(t, op::IsCallOpCode(o) == call, "is-call", s.str() << " IsCall=" << op::IsCallOpCode(o));
  // Operations that reach out to the world state host; calls are classified separately.
  bool ext = op::IsExternalOpCode(o);
  static const std::set<int> external = {0x31, 0x32, 0x3a, 0x3b, 0x3c, 0x3f, 0x40, 0x41, 0x42, 0x43,
                                            0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x54, 0x55, 0x5c,
                                            0x5d, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xff};
  PBT_CHECK(t, ext == (external.count(v) > 0), "is-external", s.str() << " IsExternal=" << ext);
  t.nontrivial(static_cast<uint64_t>(v));
  t.label(inCat ? "used" : "unused");
}

// Valid jump targets vs. an independent oracle working backwards from the definition:
// position p is data iff it is covered by the immediate of some instruction start < p.
void jumpTargets(T& t) {
  size_t n = t.weighted({1, 6, 2}) == 0 ? t.draw(4) : t.draw(t.chance(1, 4) ? 600 : 80);
  std::vector<uint8_t> code;
  static const uint8_t interesting[] = {0x5b, 0x60, 0x61, 0x7f, 0x7e, 0x5f, 0x80, 0x5a, 0x5c, 0x00, 0x62, 0x6f, 0x70};
  while (code.size() < n) {
    switch (t.weighted({6, 3, 4, 2})) {
      case 0: code.push_back(interesting[t.draw(sizeof interesting)]); break;
      case 1: code.push_back(static_cast<uint8_t>(t.draw(256))); break;
      case 2: {  // push with jumpdest-rich immediates
        unsigned w = static_cast<unsigned>(t.range(1, 32));
        code.push_back(static_cast<uint8_t>(0x5f + w));
        for (unsigned i = 0; i < w && code.size() < n; i++) code.push_back(t.draw(2) ? 0x5b : static_cast<uint8_t>(t.draw(256)));
        break;
      }
      default: code.push_back(0x5b);
    }
  }
  std::vector<uint8_t> isStart(code.size(), 0);
  for (size_t p = 0; p < code.size();) {
    isStart[p] = 1;
    uint8_t c = code[p];
    p += 1 + (c >= 0x60 && c <= 0x7f ? static_cast<size_t>(c - 0x5f) : 0);
  }
  // heap copy of exact size so that address sanitizer sees any over-read
  std::unique_ptr<uint8_t[]> exact(new uint8_t[code.size()]);
  std::copy(code.begin(), code.end(), exact.get());
  auto got = op::CalculateValidJumpTargets(std::span<const uint8_t>(exact.get(), code.size()));
  std::ostringstream s;
  s << "code 0x";
  for (auto b : code) s << std::hex << (b >> 4) << (b & 15);
  t.sample_ = s.str();
  PBT_CHECK(t, got.size() == code.size(), "size", s.str() << " result size " << std::dec << got.size());
  bool dataDest = false, dest = false;
  for (size_t p = 0; p < code.size(); p++) {
    bool want = isStart[p] && code[p] == 0x5b;
    if (code[p] == 0x5b) (want ? dest : dataDest) = true;
    PBT_CHECK(t, (got[p] != 0) == want, "target", s.str() << " position " << std::dec << p << " marked " << int(got[p]) << " expected " << want);
  }
  auto again = op::CalculateValidJumpTargets(std::span<const uint8_t>(code.data(), code.size()));
  PBT_CHECK(t, again == got, "pure", s.str());
  if (dataDest) t.label("jumpdest-in-data");
  if (dest) t.label("jumpdest");
  if (!code.empty() && !isStart.back()) t.label("ends-in-data");
  if (dest && dataDest) t.nontrivial(pbt::fnv(code.data(), code.size()));
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::main(argc, argv,
                   {{"hashing", hashing},
                    {"hash-families", hashFamilies},
                    {"opcode-byte", opcodeByte},
                    {"jump-targets", jumpTargets}});
}
