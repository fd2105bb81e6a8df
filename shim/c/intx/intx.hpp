// Offline stand-in for intx: the part of the 256-bit API the code under test
// uses, with intx's documented semantics.
#pragma once
#include <array>
#include <climits>
#include <cstdint>
#include <cstring>
#include <string>
#include <type_traits>

namespace intx {

struct uint256;
constexpr bool lt_(const uint256& a, const uint256& b) noexcept;

struct uint256 {
  uint64_t w[4]{};
  static constexpr unsigned num_bits = 256;
  static constexpr unsigned num_words = 4;

  constexpr uint256() noexcept = default;
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
  constexpr uint256(T v) noexcept : w{static_cast<uint64_t>(v), 0, 0, 0} {}  // no sign extension
  constexpr uint256(uint64_t a, uint64_t b, uint64_t c = 0, uint64_t d = 0) noexcept : w{a, b, c, d} {}

  constexpr uint64_t& operator[](size_t i) noexcept { return w[i]; }
  constexpr const uint64_t& operator[](size_t i) const noexcept { return w[i]; }
  constexpr explicit operator bool() const noexcept { return (w[0] | w[1] | w[2] | w[3]) != 0; }
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
  constexpr explicit operator T() const noexcept { return static_cast<T>(w[0]); }

  friend constexpr bool operator==(const uint256& a, const uint256& b) noexcept {
    return ((a.w[0] ^ b.w[0]) | (a.w[1] ^ b.w[1]) | (a.w[2] ^ b.w[2]) | (a.w[3] ^ b.w[3])) == 0;
  }
  friend constexpr bool operator<(const uint256& a, const uint256& b) noexcept { return lt_(a, b); }
  friend constexpr bool operator>(const uint256& a, const uint256& b) noexcept { return lt_(b, a); }
  friend constexpr bool operator<=(const uint256& a, const uint256& b) noexcept { return !lt_(b, a); }
  friend constexpr bool operator>=(const uint256& a, const uint256& b) noexcept { return !lt_(a, b); }

  friend constexpr uint256 operator~(const uint256& a) noexcept { return {~a.w[0], ~a.w[1], ~a.w[2], ~a.w[3]}; }
  friend constexpr uint256 operator&(const uint256& a, const uint256& b) noexcept { return {a.w[0] & b.w[0], a.w[1] & b.w[1], a.w[2] & b.w[2], a.w[3] & b.w[3]}; }
  friend constexpr uint256 operator|(const uint256& a, const uint256& b) noexcept { return {a.w[0] | b.w[0], a.w[1] | b.w[1], a.w[2] | b.w[2], a.w[3] | b.w[3]}; }
  friend constexpr uint256 operator^(const uint256& a, const uint256& b) noexcept { return {a.w[0] ^ b.w[0], a.w[1] ^ b.w[1], a.w[2] ^ b.w[2], a.w[3] ^ b.w[3]}; }

  friend constexpr uint256 operator+(const uint256& a, const uint256& b) noexcept {
    uint256 r;
    unsigned __int128 c = 0;
    for (int i = 0; i < 4; ++i) {
      c += static_cast<unsigned __int128>(a.w[i]) + b.w[i];
      r.w[i] = static_cast<uint64_t>(c);
      c >>= 64;
    }
    return r;
  }
  friend constexpr uint256 operator-(const uint256& a) noexcept { return ~a + uint256{1}; }
  friend constexpr uint256 operator-(const uint256& a, const uint256& b) noexcept { return a + (-b); }
  friend constexpr uint256 operator*(const uint256& a, const uint256& b) noexcept {
    uint256 r;
    for (int i = 0; i < 4; ++i) {
      unsigned __int128 c = 0;
      for (int j = 0; i + j < 4; ++j) {
        c += static_cast<unsigned __int128>(a.w[i]) * b.w[j] + r.w[i + j];
        r.w[i + j] = static_cast<uint64_t>(c);
        c >>= 64;
      }
    }
    return r;
  }
  friend constexpr uint256 operator<<(const uint256& a, uint64_t n) noexcept {
    uint256 r;
    if (n >= 256) return r;
    const int k = static_cast<int>(n / 64);
    const unsigned b = n % 64;
    for (int i = 3; i >= k; --i) {
      r.w[i] = a.w[i - k] << b;
      if (b && i - k - 1 >= 0) r.w[i] |= a.w[i - k - 1] >> (64 - b);
    }
    return r;
  }
  friend constexpr uint256 operator>>(const uint256& a, uint64_t n) noexcept {
    uint256 r;
    if (n >= 256) return r;
    const int k = static_cast<int>(n / 64);
    const unsigned b = n % 64;
    for (int i = 0; i + k < 4; ++i) {
      r.w[i] = a.w[i + k] >> b;
      if (b && i + k + 1 < 4) r.w[i] |= a.w[i + k + 1] << (64 - b);
    }
    return r;
  }
  friend constexpr uint256 operator<<(const uint256& a, const uint256& n) noexcept { return (n.w[1] | n.w[2] | n.w[3]) ? uint256{} : a << n.w[0]; }
  friend constexpr uint256 operator>>(const uint256& a, const uint256& n) noexcept { return (n.w[1] | n.w[2] | n.w[3]) ? uint256{} : a >> n.w[0]; }
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
  friend constexpr uint256 operator<<(const uint256& a, T n) noexcept { return a << static_cast<uint64_t>(n); }
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
  friend constexpr uint256 operator>>(const uint256& a, T n) noexcept { return a >> static_cast<uint64_t>(n); }

  constexpr uint256& operator+=(const uint256& b) noexcept { return *this = *this + b; }
  constexpr uint256& operator-=(const uint256& b) noexcept { return *this = *this - b; }
  constexpr uint256& operator*=(const uint256& b) noexcept { return *this = *this * b; }
  constexpr uint256& operator&=(const uint256& b) noexcept { return *this = *this & b; }
  constexpr uint256& operator|=(const uint256& b) noexcept { return *this = *this | b; }
  constexpr uint256& operator^=(const uint256& b) noexcept { return *this = *this ^ b; }
  constexpr uint256& operator<<=(uint64_t n) noexcept { return *this = *this << n; }
  constexpr uint256& operator>>=(uint64_t n) noexcept { return *this = *this >> n; }
  constexpr uint256& operator<<=(const uint256& n) noexcept { return *this = *this << n; }
  constexpr uint256& operator>>=(const uint256& n) noexcept { return *this = *this >> n; }
  constexpr uint256& operator++() noexcept { return *this += uint256{1}; }
  constexpr uint256& operator--() noexcept { return *this -= uint256{1}; }
};

constexpr bool lt_(const uint256& a, const uint256& b) noexcept {
  for (int i = 3; i >= 0; --i)
    if (a.w[i] != b.w[i]) return a.w[i] < b.w[i];
  return false;
}

template <typename Q, typename R = Q>
struct div_result { Q quot; R rem; };
template <typename T>
struct result_with_carry { T value; bool carry; };

constexpr result_with_carry<uint256> addc(const uint256& a, const uint256& b, bool carry = false) noexcept {
  uint256 r;
  unsigned __int128 c = carry;
  for (int i = 0; i < 4; ++i) {
    c += static_cast<unsigned __int128>(a.w[i]) + b.w[i];
    r.w[i] = static_cast<uint64_t>(c);
    c >>= 64;
  }
  return {r, c != 0};
}
constexpr result_with_carry<uint256> subc(const uint256& a, const uint256& b, bool carry = false) noexcept {
  const uint256 r = a - b - uint256{carry ? 1u : 0u};
  return {r, (a < b) || (carry && a == b)};
}

constexpr bool slt(const uint256& a, const uint256& b) noexcept {
  const bool an = a.w[3] >> 63, bn = b.w[3] >> 63;
  return an != bn ? an : a < b;
}

constexpr unsigned bit_length_(const uint256& a) noexcept {
  for (int i = 3; i >= 0; --i)
    if (a.w[i]) return static_cast<unsigned>(i * 64 + 64 - __builtin_clzll(a.w[i]));
  return 0;
}
constexpr unsigned clz(const uint256& a) noexcept { return 256 - bit_length_(a); }
constexpr unsigned count_significant_bytes(const uint256& a) noexcept { return (bit_length_(a) + 7) / 8; }
constexpr unsigned count_significant_words(const uint256& a) noexcept { return (bit_length_(a) + 63) / 64; }

// Shift-and-subtract long division of an n-word numerator.
template <size_t N>
constexpr div_result<uint256> udivrem_words(const uint64_t (&u)[N], const uint256& v) noexcept {
  uint256 q, r;
  bool started = false;
  for (int i = static_cast<int>(N) - 1; i >= 0; --i) {
    if (!started && u[i] == 0) continue;
    started = true;
    for (int b = 63; b >= 0; --b) {
      const bool carry = r.w[3] >> 63;
      r = r << uint64_t{1};
      r.w[0] |= (u[i] >> b) & 1;
      q = q << uint64_t{1};
      if (carry || r >= v) {
        r = r - v;
        q.w[0] |= 1;
      }
    }
  }
  return {q, r};
}
constexpr div_result<uint256> udivrem(const uint256& u, const uint256& v) noexcept {
  if (!(u.w[1] | u.w[2] | u.w[3] | v.w[1] | v.w[2] | v.w[3])) return {uint256{u.w[0] / v.w[0]}, uint256{u.w[0] % v.w[0]}};
  return udivrem_words(u.w, v);
}
constexpr div_result<uint256> sdivrem(const uint256& u, const uint256& v) noexcept {
  const bool un = u.w[3] >> 63, vn = v.w[3] >> 63;
  const auto r = udivrem(un ? -u : u, vn ? -v : v);
  return {(un != vn) ? -r.quot : r.quot, un ? -r.rem : r.rem};
}
constexpr uint256 operator/(const uint256& a, const uint256& b) noexcept { return udivrem(a, b).quot; }
constexpr uint256 operator%(const uint256& a, const uint256& b) noexcept { return udivrem(a, b).rem; }
inline uint256& operator/=(uint256& a, const uint256& b) noexcept { return a = a / b; }
inline uint256& operator%=(uint256& a, const uint256& b) noexcept { return a = a % b; }

constexpr uint256 addmod(const uint256& x, const uint256& y, const uint256& m) noexcept {
  const auto s = addc(x, y);
  const uint64_t u[5] = {s.value.w[0], s.value.w[1], s.value.w[2], s.value.w[3], s.carry ? 1u : 0u};
  return udivrem_words(u, m).rem;
}
constexpr uint256 mulmod(const uint256& x, const uint256& y, const uint256& m) noexcept {
  uint64_t p[8] = {};
  for (int i = 0; i < 4; ++i) {
    unsigned __int128 c = 0;
    for (int j = 0; j < 4; ++j) {
      c += static_cast<unsigned __int128>(x.w[i]) * y.w[j] + p[i + j];
      p[i + j] = static_cast<uint64_t>(c);
      c >>= 64;
    }
    p[i + 4] = static_cast<uint64_t>(c);
  }
  return udivrem_words(p, m).rem;
}
constexpr uint256 exp(uint256 base, uint256 exponent) noexcept {
  uint256 r{1};
  while (exponent) {
    if (exponent.w[0] & 1) r = r * base;
    base = base * base;
    exponent = exponent >> uint64_t{1};
  }
  return r;
}

constexpr uint64_t bswap(uint64_t x) noexcept { return __builtin_bswap64(x); }
constexpr uint32_t bswap(uint32_t x) noexcept { return __builtin_bswap32(x); }
constexpr uint256 bswap(const uint256& x) noexcept { return {bswap(x.w[3]), bswap(x.w[2]), bswap(x.w[1]), bswap(x.w[0])}; }

template <typename T> inline const uint8_t* as_bytes(const T& x) noexcept { return reinterpret_cast<const uint8_t*>(&x); }
template <typename T> inline uint8_t* as_bytes(T& x) noexcept { return reinterpret_cast<uint8_t*>(&x); }

inline std::string to_string(uint256 x, int base = 10) {
  if (!x) return "0";
  std::string s;
  while (x) {
    const auto r = udivrem(x, uint256{static_cast<uint64_t>(base)});
    const int d = static_cast<int>(r.rem.w[0]);
    s.insert(s.begin(), static_cast<char>(d < 10 ? '0' + d : 'a' + d - 10));
    x = r.quot;
  }
  return s;
}
inline std::string hex(uint256 x) { return to_string(x, 16); }

inline namespace literals {
constexpr uint256 operator"" _u256(const char* s) noexcept {
  uint256 r;
  bool h = s[0] == '0' && (s[1] == 'x' || s[1] == 'X');
  for (const char* p = h ? s + 2 : s; *p; ++p) {
    if (*p == '\'') continue;
    const int d = *p <= '9' ? *p - '0' : (*p | 32) - 'a' + 10;
    r = r * uint256{h ? 16 : 10} + uint256{d};
  }
  return r;
}
}  // namespace literals

namespace be {
namespace shim {
inline uint256 from(const uint8_t* p, size_t n) noexcept {
  uint8_t b[32] = {};
  std::memcpy(b + 32 - n, p, n);
  uint256 r;
  for (int i = 0; i < 4; ++i) {
    uint64_t v;
    std::memcpy(&v, b + 24 - 8 * i, 8);
    r.w[i] = bswap(v);
  }
  return r;
}
inline void to(const uint256& x, uint8_t* b) noexcept {
  for (int i = 0; i < 4; ++i) {
    const uint64_t v = bswap(x.w[i]);
    std::memcpy(b + 24 - 8 * i, &v, 8);
  }
}
}  // namespace shim
template <typename IntT, size_t M>
inline IntT load(const uint8_t (&src)[M]) noexcept { static_assert(M <= 32); return shim::from(src, M); }
template <typename IntT, typename T>
inline IntT load(const T& t) noexcept { return load<IntT>(t.bytes); }
inline void store(uint8_t (&dst)[32], const uint256& x) noexcept { shim::to(x, dst); }
template <typename DstT>
inline DstT store(const uint256& x) noexcept {
  DstT r{};
  static_assert(sizeof(r.bytes) == 32);
  shim::to(x, r.bytes);
  return r;
}
template <size_t M>
inline void trunc(uint8_t (&dst)[M], const uint256& x) noexcept {
  uint8_t b[32];
  shim::to(x, b);
  std::memcpy(dst, b + 32 - M, M);
}
template <typename DstT>
inline DstT trunc(const uint256& x) noexcept {
  DstT r{};
  trunc(r.bytes, x);
  return r;
}
namespace unsafe {
template <typename IntT> inline IntT load(const uint8_t* src) noexcept { return shim::from(src, 32); }
inline void store(uint8_t* dst, const uint256& x) noexcept { shim::to(x, dst); }
}  // namespace unsafe
}  // namespace be
}  // namespace intx
