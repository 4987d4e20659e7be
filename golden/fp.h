// Independent single-precision arithmetic (exact integer significands, one
// rounding at the end) following the RISC-V F rules: canonical NaN results,
// all five rounding modes.  Shares no code with the simulator or softfloat.
#pragma once
#include <cstdint>

namespace gfp {

enum { RNE = 0, RTZ = 1, RDN = 2, RUP = 3, RMM = 4 };
typedef unsigned __int128 u128;
static const uint32_t QNAN = 0x7fc00000u;

inline bool isnan_(uint32_t v) { return (v & 0x7fffffffu) > 0x7f800000u; }
inline bool isinf_(uint32_t v) { return (v & 0x7fffffffu) == 0x7f800000u; }
inline bool iszero_(uint32_t v) { return (v & 0x7fffffffu) == 0; }

inline int msb128(u128 v) {
  uint64_t hi = (uint64_t)(v >> 64), lo = (uint64_t)v;
  if (hi) return 127 - __builtin_clzll(hi);
  if (lo) return 63 - __builtin_clzll(lo);
  return -1;
}

inline bool round_up(int rm, bool sign, bool lsb, bool half, bool sticky) {
  switch (rm) {
  case RNE: return half && (sticky || lsb);
  case RTZ: return false;
  case RDN: return sign && (half || sticky);
  case RUP: return !sign && (half || sticky);
  default: return half; // RMM
  }
}

// value = (-1)^sign * (m + sticky*epsilon) * 2^e, m != 0 or sticky
inline uint32_t pack(bool sign, u128 m, int e, bool sticky, int rm) {
  uint32_t s = sign ? 0x80000000u : 0;
  if (m == 0) return s; // exact zero (callers never pass a pure sticky)
  int top = msb128(m);
  // unbiased exponent of the leading bit
  int ex = e + top;
  int lsb_exp = ex - 23; // weight of the result's last bit
  if (lsb_exp < -149) lsb_exp = -149;
  int sh = lsb_exp - e;
  u128 q;
  bool half = false, st = sticky;
  if (sh <= 0) {
    q = m << (-sh);
  } else if (sh > 127) {
    q = 0;
    st = true;
  } else {
    q = m >> sh;
    u128 rem = m & ((((u128)1) << sh) - 1);
    u128 hb = ((u128)1) << (sh - 1);
    half = (rem & hb) != 0;
    st = st || (rem & (hb - 1)) != 0;
  }
  uint64_t r = (uint64_t)q;
  if (round_up(rm, sign, r & 1, half, st)) r++;
  if (r >> 24) { r >>= 1; lsb_exp++; }
  if (r == 0) return s;
  if (!(r >> 23)) return s | (uint32_t)r; // subnormal (lsb_exp == -149)
  int be = lsb_exp + 23 + 127;
  if (be >= 255) {
    bool to_inf = rm == RNE || rm == RMM || (rm == RDN && sign) || (rm == RUP && !sign);
    return s | (to_inf ? 0x7f800000u : 0x7f7fffffu);
  }
  return s | ((uint32_t)be << 23) | ((uint32_t)r & 0x7fffffu);
}

struct Unp { bool s; uint64_t m; int e; };
inline Unp unp(uint32_t v) {
  Unp u;
  u.s = v >> 31;
  int be = (v >> 23) & 0xff;
  u.m = v & 0x7fffff;
  if (be) { u.m |= 0x800000; u.e = be - 127 - 23; } else u.e = -149;
  return u;
}

inline uint32_t add(uint32_t a, uint32_t b, int rm) {
  if (isnan_(a) || isnan_(b)) return QNAN;
  if (isinf_(a)) return (isinf_(b) && ((a ^ b) >> 31)) ? QNAN : a;
  if (isinf_(b)) return b;
  Unp x = unp(a), y = unp(b);
  if (x.m == 0 && y.m == 0) {
    if (x.s == y.s) return a;
    return rm == RDN ? 0x80000000u : 0;
  }
  if (x.m == 0) return b;
  if (y.m == 0) return a;
  if (x.e < y.e) { Unp t = x; x = y; y = t; }
  int d = x.e - y.e; // >= 0
  bool sticky = false;
  u128 X, Y;
  int e;
  if (d <= 90) {
    X = (u128)x.m << d;
    Y = y.m;
    e = y.e;
  } else { // the small operand only matters as a sticky tail
    X = (u128)x.m << 60;
    e = x.e - 60;
    Y = 0;
    sticky = true;
  }
  if (x.s == y.s) return pack(x.s, X + Y, e, sticky, rm);
  if (sticky) return pack(x.s, X - 1, e, true, rm);
  if (X == Y) return rm == RDN ? 0x80000000u : 0;
  if (X > Y) return pack(x.s, X - Y, e, false, rm);
  return pack(y.s, Y - X, e, false, rm);
}

inline uint32_t sub(uint32_t a, uint32_t b, int rm) {
  if (isnan_(b)) return QNAN;
  return add(a, b ^ 0x80000000u, rm);
}

inline uint32_t mul(uint32_t a, uint32_t b, int rm) {
  if (isnan_(a) || isnan_(b)) return QNAN;
  uint32_t s = (a ^ b) & 0x80000000u;
  if (isinf_(a) || isinf_(b)) {
    if (iszero_(a) || iszero_(b)) return QNAN;
    return s | 0x7f800000u;
  }
  Unp x = unp(a), y = unp(b);
  if (x.m == 0 || y.m == 0) return s;
  return pack(s != 0, (u128)x.m * y.m, x.e + y.e, false, rm);
}

inline uint32_t div(uint32_t a, uint32_t b, int rm) {
  if (isnan_(a) || isnan_(b)) return QNAN;
  uint32_t s = (a ^ b) & 0x80000000u;
  if (isinf_(a)) return isinf_(b) ? QNAN : (s | 0x7f800000u);
  if (isinf_(b)) return s;
  Unp x = unp(a), y = unp(b);
  if (y.m == 0) return x.m == 0 ? QNAN : (s | 0x7f800000u);
  if (x.m == 0) return s;
  u128 n = (u128)x.m << 80;
  u128 q = n / y.m;
  return pack(s != 0, q, x.e - y.e - 80, n % y.m != 0, rm);
}

inline uint32_t sqrt(uint32_t a, int rm) {
  if (isnan_(a)) return QNAN;
  if (iszero_(a)) return a;
  if (a >> 31) return QNAN;
  if (isinf_(a)) return a;
  Unp x = unp(a);
  int e = x.e;
  u128 n = (u128)x.m << 70;
  e -= 70;
  if (e & 1) { n <<= 1; e--; }
  // integer square root of n (< 2^95)
  u128 r = 0, bit = (u128)1 << 94;
  u128 rem = n;
  while (bit > n) bit >>= 2;
  while (bit) {
    if (rem >= r + bit) { rem -= r + bit; r = (r >> 1) + bit; } else r >>= 1;
    bit >>= 2;
  }
  return pack(false, r, e / 2, rem != 0, rm);
}

// fused a*b+c
inline uint32_t fma(uint32_t a, uint32_t b, uint32_t c, int rm) {
  if (isnan_(a) || isnan_(b) || isnan_(c)) return QNAN;
  bool ps = ((a ^ b) >> 31) & 1;
  if (isinf_(a) || isinf_(b)) {
    if (iszero_(a) || iszero_(b)) return QNAN;
    if (isinf_(c) && ((c >> 31) != (uint32_t)ps)) return QNAN;
    return (ps ? 0x80000000u : 0) | 0x7f800000u;
  }
  if (isinf_(c)) return c;
  Unp x = unp(a), y = unp(b), z = unp(c);
  u128 P = (u128)x.m * y.m;
  int pe = x.e + y.e;
  if (P == 0) {
    if (z.m) return c;
    if (ps == z.s) return c & 0x80000000u;
    return rm == RDN ? 0x80000000u : 0;
  }
  if (z.m == 0) return pack(ps, P, pe, false, rm);
  // align exactly when the exponents are close enough, else use a sticky tail
  int d = pe - z.e;
  u128 A, B;
  int e;
  bool as, bs;
  if (d >= 0 && d <= 70) { A = P << d; as = ps; B = z.m; bs = z.s; e = z.e; }
  else if (d < 0 && -d <= 90) { A = (u128)z.m << -d; as = z.s; B = P; bs = ps; e = pe; }
  else {
    bool big_is_p = d > 0;
    A = big_is_p ? (P << 70) : ((u128)z.m << 90);
    e = big_is_p ? pe - 70 : z.e - 90;
    as = big_is_p ? ps : z.s;
    bs = big_is_p ? z.s : ps;
    if (as == bs) return pack(as, A, e, true, rm);
    return pack(as, A - 1, e, true, rm);
  }
  if (as == bs) return pack(as, A + B, e, false, rm);
  if (A == B) return rm == RDN ? 0x80000000u : 0;
  if (A > B) return pack(as, A - B, e, false, rm);
  return pack(bs, B - A, e, false, rm);
}

inline bool feq(uint32_t a, uint32_t b) {
  if (isnan_(a) || isnan_(b)) return false;
  return a == b || (iszero_(a) && iszero_(b));
}
inline int32_t key(uint32_t v) {
  int32_t m = (int32_t)(v & 0x7fffffffu);
  return (v >> 31) ? -m : m;
}
inline bool flt(uint32_t a, uint32_t b) {
  if (isnan_(a) || isnan_(b)) return false;
  return key(a) < key(b);
}
inline bool fle(uint32_t a, uint32_t b) {
  if (isnan_(a) || isnan_(b)) return false;
  return key(a) <= key(b);
}
inline uint32_t fmin_(uint32_t a, uint32_t b) {
  if (isnan_(a) && isnan_(b)) return QNAN;
  if (isnan_(a)) return b;
  if (isnan_(b)) return a;
  if (key(a) == key(b)) return (a >> 31) ? a : b;
  return key(a) < key(b) ? a : b;
}
inline uint32_t fmax_(uint32_t a, uint32_t b) {
  if (isnan_(a) && isnan_(b)) return QNAN;
  if (isnan_(a)) return b;
  if (isnan_(b)) return a;
  if (key(a) == key(b)) return (a >> 31) ? b : a;
  return key(a) < key(b) ? b : a;
}
inline uint32_t fclass(uint32_t v) {
  bool s = v >> 31;
  uint32_t ex = (v >> 23) & 0xff, m = v & 0x7fffff;
  if (ex == 255) {
    if (m) return (m >> 22) ? 1u << 9 : 1u << 8;
    return s ? 1u << 0 : 1u << 7;
  }
  if (ex == 0) {
    if (m) return s ? 1u << 2 : 1u << 5;
    return s ? 1u << 3 : 1u << 4;
  }
  return s ? 1u << 1 : 1u << 6;
}

// returns rounded integer magnitude clipped to > 2^32
inline uint64_t to_int_mag(uint32_t v, int rm) {
  Unp u = unp(v);
  if (u.e >= 0) {
    if (u.e > 20) return 1ull << 60;
    return u.m << u.e;
  }
  int sh = -u.e;
  if (sh > 60) {
    bool nz = u.m != 0;
    return round_up(rm, u.s, false, false, nz) ? 1 : 0;
  }
  uint64_t q = u.m >> sh;
  uint64_t rem = u.m & ((1ull << sh) - 1), hb = 1ull << (sh - 1);
  if (round_up(rm, u.s, q & 1, (rem & hb) != 0, (rem & (hb - 1)) != 0)) q++;
  return q;
}
inline uint32_t cvt_w(uint32_t v, int rm) {
  if (isnan_(v)) return 0x7fffffffu;
  bool s = v >> 31;
  uint64_t m = isinf_(v) ? 1ull << 60 : to_int_mag(v, rm);
  if (s) return m > 0x80000000ull ? 0x80000000u : (uint32_t)(0 - (uint32_t)m);
  return m > 0x7fffffffull ? 0x7fffffffu : (uint32_t)m;
}
inline uint32_t cvt_wu(uint32_t v, int rm) {
  if (isnan_(v)) return 0xffffffffu;
  bool s = v >> 31;
  uint64_t m = isinf_(v) ? 1ull << 60 : to_int_mag(v, rm);
  if (s) return 0;
  return m > 0xffffffffull ? 0xffffffffu : (uint32_t)m;
}
// true when the conversion is invalid (NaN or out of range)
inline bool cvt_w_invalid(uint32_t v, int rm) {
  if (isnan_(v) || isinf_(v)) return true;
  uint64_t m = to_int_mag(v, rm);
  return (v >> 31) ? m > 0x80000000ull : m > 0x7fffffffull;
}
inline bool cvt_wu_invalid(uint32_t v, int rm) {
  if (isnan_(v) || isinf_(v)) return true;
  uint64_t m = to_int_mag(v, rm);
  return (v >> 31) ? m != 0 : m > 0xffffffffull;
}
inline uint32_t from_i32(int32_t i, int rm) {
  if (i == 0) return 0;
  bool s = i < 0;
  uint64_t m = s ? (uint64_t)(-(int64_t)i) : (uint64_t)i;
  return pack(s, m, 0, false, rm);
}
inline uint32_t from_u32(uint32_t i, int rm) {
  if (i == 0) return 0;
  return pack(false, i, 0, false, rm);
}

} // namespace gfp
