// Random program generator shared by every program-level check.
// A Case is a list of memory words (code, tables, data) plus a memory/fetch
// schedule.  It is fully described by its text form, so a failing case can be
// reduced word by word and replayed without the generator.
#pragma once
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

namespace gen {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t u32() { return (uint32_t)next(); }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
  uint32_t range(uint32_t a, uint32_t b) { return a + below(b - a + 1); }
  bool pct(uint32_t p) { return below(100) < p; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below((uint32_t)l.size())); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
};

struct Case {
  std::vector<std::pair<uint32_t, uint32_t>> code, data;
  std::map<std::string, int64_t> p; // schedule and run parameters
  int64_t get(const std::string &k, int64_t d) const {
    auto it = p.find(k);
    return it == p.end() ? d : it->second;
  }
  std::string text() const {
    std::string o = "case v1\n";
    char b[96];
    for (auto &k : p) { snprintf(b, sizeof b, "p %s %lld\n", k.first.c_str(), (long long)k.second); o += b; }
    for (auto &w : code) { snprintf(b, sizeof b, "c %08x %08x\n", w.first, w.second); o += b; }
    for (auto &w : data) { snprintf(b, sizeof b, "d %08x %08x\n", w.first, w.second); o += b; }
    return o;
  }
  static bool load(const std::string &path, Case &c) {
    std::ifstream f(path);
    if (!f) return false;
    std::string l;
    std::getline(f, l);
    if (l != "case v1") return false;
    while (std::getline(f, l)) {
      std::istringstream is(l);
      std::string t;
      is >> t;
      if (t == "p") { std::string k; long long v; is >> k >> v; c.p[k] = v; }
      else if (t == "c" || t == "d") {
        std::string a, v;
        is >> a >> v;
        auto &d = t == "c" ? c.code : c.data;
        d.push_back({(uint32_t)std::stoul(a, nullptr, 16), (uint32_t)std::stoul(v, nullptr, 16)});
      }
    }
    return true;
  }
};

// Relative weights of the building blocks, plus environment switches.
struct Profile {
  std::string name;
  std::map<std::string, int> w;
  bool vm = false;      // translated execution possible
  bool irq = false;     // interrupts possible
  bool priv = false;    // privilege switches possible
  int body = 160;       // blocks in the body
  int maxcommit = 4000;
  int W(const char *k) const { auto it = w.find(k); return it == w.end() ? 0 : it->second; }
};

static const uint32_t NOP = 0x13;

// -------------------------------------------------------------- encoders
inline uint32_t eR(uint32_t op, uint32_t rd, uint32_t f3, uint32_t r1, uint32_t r2, uint32_t f7) {
  return op | rd << 7 | f3 << 12 | r1 << 15 | r2 << 20 | f7 << 25;
}
inline uint32_t eI(uint32_t op, uint32_t rd, uint32_t f3, uint32_t r1, int32_t im) {
  return op | rd << 7 | f3 << 12 | r1 << 15 | ((uint32_t)im & 0xfff) << 20;
}
inline uint32_t eS(uint32_t f3, uint32_t r1, uint32_t r2, int32_t im) {
  return 0x23 | ((uint32_t)im & 31) << 7 | f3 << 12 | r1 << 15 | r2 << 20 | ((uint32_t)im >> 5 & 0x7f) << 25;
}
inline uint32_t eB(uint32_t f3, uint32_t r1, uint32_t r2, int32_t im) {
  uint32_t u = (uint32_t)im;
  return 0x63 | (u >> 11 & 1) << 7 | (u >> 1 & 15) << 8 | f3 << 12 | r1 << 15 | r2 << 20 | (u >> 5 & 63) << 25 | (u >> 12 & 1) << 31;
}
inline uint32_t eJ(uint32_t rd, int32_t im) {
  uint32_t u = (uint32_t)im;
  return 0x6f | rd << 7 | (u >> 12 & 255) << 12 | (u >> 11 & 1) << 20 | (u >> 1 & 1023) << 21 | (u >> 20 & 1) << 31;
}
inline uint32_t eU(uint32_t op, uint32_t rd, uint32_t v) { return op | rd << 7 | (v & 0xfffff000u); }
inline uint32_t eCsr(uint32_t f3, uint32_t rd, uint32_t csr, uint32_t rs1) { return 0x73 | rd << 7 | f3 << 12 | rs1 << 15 | csr << 20; }
inline uint32_t eAmo(uint32_t f5, uint32_t rd, uint32_t r1, uint32_t r2, uint32_t aqrl = 0) {
  return eR(0x2f, rd, 2, r1, r2, f5 << 2 | aqrl);
}
static const uint32_t ECALL = 0x73, EBREAK = 0x100073, WFI = 0x10500073, MRET = 0x30200073, SRET = 0x10200073;

// Addresses used by generated programs.
static const uint32_t A_ENTRY = 0x80000000u, A_MH = 0x80001000u, A_SH = 0x80001800u,
                      A_BODY = 0x80002000u, A_FN = 0x80010000u, A_SMC = 0x80020000u, A_CHAIN = 0x80030000u,
                      A_DATA = 0x80100000u, A_PT = 0x80200000u, A_PTB = 0x80210000u,
                      V_UCODE = 0x40000000u, V_DATA = 0x50000000u, V_SUP = 0x54000000u, V_PHYS = 0x60000000u;

struct Builder {
  Rng &r;
  const Profile &pf;
  Case c;
  uint32_t pc = 0;
  bool hit_limit = false;
  uint32_t limit = 0;
  int prv = 3;            // statically known privilege at this point
  bool translated = false; // satp active (and prv < 3)
  bool use_vm = false;
  int ndata = 0;
  int depth = 0;
  std::vector<std::pair<uint32_t, uint32_t>> fns; // entry, link register
  std::vector<uint32_t> datapages; // physical pages reachable
  struct Pte { uint32_t at, va; bool super; };
  std::vector<Pte> ptes;           // data leaf entries that may be rewritten
  bool spaces = false;             // each root has its own address-space number
  uint32_t medeleg = 0;
  bool tv_vec = false;
  bool m_closed = false;

  Builder(Rng &rr, const Profile &p) : r(rr), pf(p) {}

  void e(uint32_t w) { if (limit && pc >= limit) { hit_limit = true; return; } c.code.push_back({pc, w}); pc += 4; }
  void put(uint32_t a, uint32_t w) { c.data.push_back({a, w}); }
  void li(uint32_t rd, uint32_t v) {
    int32_t lo = (int32_t)(v << 20) >> 20;
    uint32_t hi = v - (uint32_t)lo;
    if (hi) {
      e(eU(0x37, rd, hi));
      if (lo) e(eI(0x13, rd, 0, rd, lo));
    } else
      e(eI(0x13, rd, 0, 0, lo));
  }
  static constexpr uint32_t PTR[6] = {8, 9, 18, 19, 20, 21};
  static constexpr uint32_t CNT[3] = {22, 23, 24};
  uint32_t src() {
    if (r.pct(8)) return 0;
    return r.range(1, 31);
  }
  std::vector<uint32_t> hot; // small working set increases dependencies
  uint32_t dst() {
    static const uint32_t pool[] = {3, 4, 6, 7, 10, 11, 12, 13, 14, 15, 16, 17, 25, 26, 27, 28, 29, 30, 31, 0};
    if (!hot.empty() && r.pct(60)) return r.pick(hot);
    static const uint32_t ipool[] = {3, 4, 6, 7, 10, 11, 12, 13, 14, 15, 16, 17, 28, 0}; // handlers own x25-x27, x29-x31
    if (pf.irq) return ipool[r.below(r.pct(3) ? 14 : 13)];
    return pool[r.below(r.pct(3) ? 20 : 19)];
  }
  uint32_t dstnz() { uint32_t d; do d = dst(); while (!d); return d; }
  uint32_t hsrc() { return (!hot.empty() && r.pct(60)) ? r.pick(hot) : src(); }
  uint32_t ptr() { return PTR[r.below(6)]; }
  uint32_t val() {
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return ~0u;
    case 2: return 0x80000000u;
    case 3: return 0x7fffffffu;
    case 4: return r.below(64);
    case 5: return 1u << r.below(32);
    case 6: return fpval();
    default: return r.u32();
    }
  }
  uint32_t fpval() {
    switch (r.below(10)) {
    case 0: return 0x7f800000u | (r.below(2) << 31);
    case 1: return 0x7fc00000u | (r.u32() & 0x803fffffu);
    case 2: return 0x7f800001u | (r.u32() & 0x803fffffu);
    case 3: return (r.u32() & 0x807fffffu); // subnormal
    case 4: return (r.below(2) << 31);
    case 5: return 0x3f800000u | (r.below(2) << 31);
    case 6: return 0x4f000000u | (r.u32() & 0x80ffffffu);
    case 7: return (r.u32() & 0x807fffffu) | (r.range(120, 135) << 23);
    default: return r.u32();
    }
  }

  // -------------------------------------------------------- simple blocks
  uint32_t alu_word(uint32_t rd, uint32_t a, uint32_t b) {
    switch (r.below(4)) {
    case 0: { // op-imm
      static const uint32_t f[] = {0, 2, 3, 4, 6, 7};
      return eI(0x13, rd, f[r.below(6)], a, (int32_t)r.below(4096) - 2048);
    }
    case 1: { // shifts/bit imm
      uint32_t sh = r.below(32);
      switch (r.below(14)) {
      case 0: return eR(0x13, rd, 1, a, sh, 0);
      case 1: return eR(0x13, rd, 5, a, sh, 0);
      case 2: return eR(0x13, rd, 5, a, sh, 0x20);
      case 3: return eR(0x13, rd, 5, a, sh, 0x30);
      case 4: return eR(0x13, rd, 1, a, sh, 0x14);
      case 5: return eR(0x13, rd, 1, a, sh, 0x24);
      case 6: return eR(0x13, rd, 1, a, sh, 0x34);
      case 7: return eR(0x13, rd, 5, a, sh, 0x24);
      case 8: return eR(0x13, rd, 1, a, r.pick({0u, 1u, 2u, 4u, 5u}), 0x30);
      case 9: return eR(0x13, rd, 5, a, 24, 0x34);
      case 10: return eR(0x13, rd, 5, a, 7, 0x14);
      case 11: return eU(0x37, rd, r.u32());
      case 12: return eU(0x17, rd, r.u32());
      default: return eR(0x13, rd, 1, a, sh, 0);
      }
    }
    default: {
      static const uint32_t k[] = {0x000, 0x100, 0x001, 0x002, 0x003, 0x004, 0x005, 0x105, 0x006, 0x007,
                                   0x000, 0x100, 0x004, 0x006, 0x007,
                                   0x082, 0x084, 0x086, 0x104, 0x106, 0x107, 0x029, 0x02b, 0x02a, 0x02c,
                                   0x02d, 0x02e, 0x02f, 0x181, 0x185, 0x121, 0x125, 0x1a1, 0x0a1, 0x024, 0x027};
      uint32_t x = k[r.below(sizeof k / 4)];
      if (x == 0x024 && r.pct(40)) b = 0; // zext.h
      return eR(0x33, rd, x & 7, a, b, x >> 3);
    }
    }
  }
  void b_alu() { e(alu_word(dst(), hsrc(), hsrc())); }
  void b_mul() { e(eR(0x33, dst(), r.below(4), hsrc(), hsrc(), 1)); }
  void b_div() { e(eR(0x33, dst(), 4 + r.below(4), hsrc(), hsrc(), 1)); }
  bool fp_fma = false; // fused forms exist only in the reference model
  uint32_t fp_word(uint32_t rd, uint32_t a, uint32_t b) {
    uint32_t rm = r.pick({0u, 1u, 2u, 3u, 4u, 7u});
    if (fp_fma && r.pct(15))
      return r.pick({0x43u, 0x47u, 0x4bu, 0x4fu}) | rd << 7 | rm << 12 | a << 15 | b << 20 | r.range(1, 31) << 27;
    switch (r.below(12)) {
    case 0: return eR(0x53, rd, rm, a, b, 0x00);
    case 1: return eR(0x53, rd, rm, a, b, 0x04);
    case 2: return eR(0x53, rd, rm, a, b, 0x08);
    case 3: return eR(0x53, rd, rm, a, b, 0x0c);
    case 4: return eR(0x53, rd, rm, a, 0, 0x2c);
    case 5: return eR(0x53, rd, r.below(3), a, b, 0x10);
    case 6: return eR(0x53, rd, r.below(2), a, b, 0x14);
    case 7: return eR(0x53, rd, r.below(3), a, b, 0x50);
    case 8: return eR(0x53, rd, rm, a, r.below(2), 0x60);
    case 9: return eR(0x53, rd, rm, a, r.below(2), 0x68);
    case 10: return eR(0x53, rd, 1, a, 0, 0x70);
    default: return eR(0x53, rd, rm, a, b, r.pick({0x00u, 0x04u, 0x08u}));
    }
  }
  void b_fp() {
    uint32_t rd = dst(), a = hsrc(), b = hsrc();
    if (r.pct(35)) { a = dstnz(); li(a, fpval()); }
    if (r.pct(25)) { b = dstnz(); li(b, fpval()); }
    e(fp_word(rd, a, b));
  }
  int32_t off(uint32_t sz) { // aligned offset, concentrated on a few lines
    int32_t o = r.pct(70) ? (int32_t)r.below(16) * 4 + (r.pct(25) ? 64 * (int32_t)r.below(3) : 0)
                          : (int32_t)r.below(512) * 4;
    if (o > 2044) o = 2044;
    if (sz == 1) o += r.below(4);
    if (sz == 2) o += r.below(2) * 2;
    if (o > 2047) o = 2047 - (sz - 1);
    return o;
  }
  uint32_t ldw(uint32_t rd, uint32_t base, int32_t &o) {
    uint32_t f3 = r.pick({0u, 1u, 2u, 2u, 2u, 4u, 5u});
    o = off(1u << (f3 & 3));
    return eI(0x03, rd, f3, base, o);
  }
  void b_ld() { int32_t o; e(ldw(dst(), ptr(), o)); }
  void b_st() {
    uint32_t f3 = r.pick({0u, 1u, 2u, 2u, 2u});
    e(eS(f3, ptr(), hsrc(), off(1u << f3)));
  }
  // address computed from data: base + (x & mask)
  uint32_t computed(uint32_t t) {
    e(eI(0x13, t, 7, hsrc(), r.pick({0x7c, 0x3c, 0x7fc, 0x1fc})));
    e(eR(0x33, t, 0, ptr(), t, 0));
    return t;
  }
  void b_cld() { uint32_t t = dstnz(); computed(t); e(eI(0x03, dst(), r.pick({0u, 1u, 2u, 4u, 5u}), t, 0)); }
  void b_cst() { uint32_t t = dstnz(); computed(t); e(eS(r.pick({0u, 1u, 2u}), t, hsrc(), 0)); }
  // store/load forwarding at one word with varied sizes, latencies and orders
  void b_stld() {
    uint32_t p = ptr();
    int32_t o = off(4);
    uint32_t q = p;
    if (r.pct(40)) { // same address through a slowly computed pointer
      q = dstnz();
      uint32_t z = dstnz();
      e(eR(0x33, z, r.pick({4u, 5u, 6u, 7u}), hsrc(), hsrc(), 1));
      e(eI(0x13, z, 7, z, 0));
      e(eR(0x33, q, 0, p, z, 0));
    }
    int n = r.range(2, 6);
    for (int i = 0; i < n; i++) {
      uint32_t base = r.pct(50) ? q : p;
      if (r.pct(50)) {
        uint32_t f3 = r.pick({0u, 1u, 2u});
        int32_t x = o + (f3 == 0 ? r.below(4) : f3 == 1 ? r.below(2) * 2 : 0);
        uint32_t v = hsrc();
        if (v == q && q != p) v = 5;
        e(eS(f3, base, v, x));
      } else {
        uint32_t f3 = r.pick({0u, 1u, 2u, 4u, 5u});
        int32_t x = o + ((f3 & 3) == 0 ? r.below(4) : (f3 & 3) == 1 ? r.below(2) * 2 : 0);
        uint32_t d = dst();
        if (d == q && q != p) d = 5;
        e(eI(0x03, d, f3, base, x));
      }
      if (r.pct(15)) {
        uint32_t d = dst();
        if (d == q) d = 5;
        e(alu_word(d, hsrc(), hsrc()));
      }
    }
  }
  // touch many lines of one cache set
  void b_conflict() {
    uint32_t t = dstnz(), n = r.range(3, 9);
    int32_t o = off(4);
    for (uint32_t i = 0; i < n; i++) {
      uint32_t k = r.below(12);
      if (translated) { uint32_t q = ptr(); if (r.pct(50)) e(eS(2, q, hsrc(), o)); else e(eI(0x03, dst(), 2, q, o)); continue; }
      li(t, A_DATA + k * 0x4000u);
      uint32_t v = hsrc();
      if (r.pct(50)) e(eS(2, t, v, o));
      else { uint32_t d = dstnz(); if (d == t) d = 5; e(eI(0x03, d, 2, t, o)); }
    }
  }
  // more outstanding misses than the cache can track, with stores that hit
  // the same bytes while their line is still missing
  uint32_t storm_at = 0;
  void b_storm() {
    uint32_t t = r.pick({10u, 11u, 12u, 13u});
    if (translated) { // virtual window: the six base pages only
      int n = r.range(8, 20);
      for (int i = 0; i < n; i++) {
        uint32_t q = ptr();
        int32_t o = (int32_t)r.below(32) * 64 - 1024 + (int32_t)r.below(4) * 4;
        if (o < 0) o = -o;
        int k = r.range(1, 3);
        for (int j = 0; j < k; j++) e(eS(r.below(3), q, hsrc(), o));
        if (r.pct(40)) e(eI(0x03, dst(), 2, q, o & ~3));
      }
      return;
    }
    std::vector<int32_t> used;
    storm_at = (storm_at + 1) % 8;
    li(t, 0x80180000u + storm_at * 0x1000u + 0x800u); // fresh lines most of the time
    int n = r.range(8, 24);
    for (int i = 0; i < n; i++) {
      int32_t o = (int32_t)r.below(64) * 64 - 2048 + (int32_t)r.below(3) * 4;
      if (!used.empty() && r.pct(35)) o = used[r.below((uint32_t)used.size())];
      used.push_back(o);
      int k = r.pick({1, 1, 2, 2, 3});
      for (int j = 0; j < k; j++) {
        uint32_t f3 = r.pick({0u, 1u, 2u, 2u});
        e(eS(f3, t, hsrc(), o + (f3 == 0 ? (int32_t)r.below(4) : f3 == 1 ? (int32_t)r.below(2) * 2 : 0)));
      }
      if (r.pct(45)) { uint32_t d = dstnz(); if (d == t) d = 5; e(eI(0x03, d, 2, t, r.pct(50) ? o : used[r.below((uint32_t)used.size())])); }
    }
    if (r.pct(60)) for (auto o : used) { uint32_t d = dstnz(); if (d == t) d = 5; e(eI(0x03, d, 2, t, o)); }
  }
  static uint32_t neg_f3(uint32_t f3) { return f3 ^ 1; }
  uint32_t brf3() { return r.pick({0u, 1u, 4u, 5u, 6u, 7u}); }
  // code that must not be executed architecturally: wild memory operations,
  // jumps and system operations behind a branch that is always taken
  void wild_insn() {
    uint32_t rd = dst(), a = src(), b = src();
    switch (r.below(14)) {
    case 0: case 1: case 2: e(eI(0x03, rd, r.pick({0u, 1u, 2u, 4u, 5u}), a, (int32_t)r.below(4096) - 2048)); break;
    case 3: case 4: e(eS(r.below(3), a, b, (int32_t)r.below(4096) - 2048)); break;
    case 5: e(eAmo(r.pick({0u, 1u, 2u, 3u, 4u, 8u, 12u, 16u, 20u, 24u, 28u}), rd, a, 0)); break;
    case 6: e(eI(0x67, r.pick({0u, 1u, 5u}), 0, a, (int32_t)r.below(4096) - 2048)); break;
    case 7: e(r.pick({ECALL, EBREAK, MRET, SRET, WFI, 0x0000100fu, 0x12000073u})); break;
    case 8: e(eCsr(1 + r.below(3), rd, r.pick({0x300u, 0x305u, 0x341u, 0x180u, 0x304u, 0x344u, 0x340u, 0x302u}), a)); break;
    case 9: e(eB(brf3(), a, b, ((int32_t)r.below(64) - 32) * 4)); break;
    case 10: e(eJ(r.pick({0u, 1u, 5u}), ((int32_t)r.below(64) - 32) * 4)); break;
    case 11: e(r.u32()); break;
    case 12: b_div(); break;
    default: e(alu_word(rd, a, b)); break;
    }
  }
  void b_wild() {
    uint32_t x = hsrc();
    int n = r.range(1, 8);
    // a branch whose outcome is known architecturally but resolves late
    uint32_t t = dstnz();
    bool slow = r.pct(60);
    if (slow) {
      if (r.pct(50)) e(eR(0x33, t, r.pick({4u, 5u, 6u, 7u}), x, hsrc(), 1));
      else { int32_t o; e(ldw(t, ptr(), o)); }
      e(eI(0x13, t, 7, t, 0)); // t = 0
    } else
      e(eI(0x13, t, 7, x, 0));
    uint32_t at = pc;
    uint32_t f3 = r.pick({0u, 5u, 7u});
    size_t idx = c.code.size();
    e(NOP);
    for (int i = 0; i < n; i++) wild_insn();
    if (idx < c.code.size()) c.code[idx].second = eB(f3, t, 0, (int32_t)(pc - at));
  }
  // ------------------------------------------------------------ atomics
  uint32_t word_addr(uint32_t t) { // t = word-aligned address inside a data page
    if (r.pct(40)) return computed(t);
    e(eI(0x13, t, 0, ptr(), off(4)));
    return t;
  }
  void b_amo() {
    uint32_t t = dstnz();
    word_addr(t);
    e(eAmo(r.pick({0u, 1u, 4u, 8u, 12u, 16u, 20u, 24u, 28u}), r.pct(10) ? 0 : dst(), t, hsrc(), r.below(4)));
    if (r.pct(30)) e(eI(0x03, dst(), 2, t, 0));
    if (r.pct(20)) e(eS(r.below(3), t, hsrc(), 0));
  }
  void b_lrsc() {
    uint32_t t = dstnz(), d = dstnz(), k = dstnz();
    if (d == t) d = 5;
    word_addr(t);
    if (r.pct(88)) e(eAmo(2, d, t, 0, r.below(4)));
    int n = r.below(4);
    for (int i = 0; i < n; i++) {
      uint32_t x = dst();
      if (x == t) x = d;
      switch (r.below(9)) {
      case 0: { int32_t o; e(ldw(x, ptr(), o)); break; }
      case 7: if (r.pct(50)) { uint32_t z = r.below(3); e(eS(z, t, hsrc(), (int32_t)((r.below(4) << z) & 3) + (r.pct(25) ? 4 : 0))); break; } // into the reserved word
      /* fallthrough */
      case 8: if (r.pct(25)) { uint32_t y = x && x != t ? x : d; e(r.pct(50) ? eAmo(r.pick({0, 1, 4, 8, 12}), y, t, hsrc(), r.below(4)) : eAmo(3, y, t, hsrc(), 0)); break; }
      /* fallthrough */
      case 6: if (mmio_ok() && pf.W("mmio") && d != t) { e(eU(0x37, d, 0x1fd0e000u)); e(eI(0x03, x ? x : d, 2, d, 8)); break; }
      /* fallthrough */
      case 1: if (r.pct(35)) { e(eS(2, ptr(), hsrc(), off(4))); break; }
      /* fallthrough */
      default: e(alu_word(x, hsrc(), hsrc()));
      }
    }
    if (r.pct(12)) { e(eI(0x13, t, 4, t, r.pick({4, 8, 64}))); } // different address
    if (k == t) k = 5;
    if (r.pct(93)) e(eAmo(3, k, t, hsrc(), r.below(4)));
    if (r.pct(30)) e(eI(0x03, dst(), 2, t, 0));
    if (r.pct(15)) e(eAmo(3, dst(), t, hsrc(), 0)); // second SC must fail
  }
  // -------------------------------------------------------- control flow
  void b_skip() {
    uint32_t at = pc;
    size_t idx = c.code.size();
    uint32_t a = hsrc(), b = hsrc(), f3 = brf3();
    e(NOP);
    int n = r.range(1, 6);
    depth++;
    for (int i = 0; i < n; i++) block(true);
    depth--;
    if (idx < c.code.size()) c.code[idx].second = eB(f3, a, b, (int32_t)(pc - at));
  }
  void b_ifelse() {
    uint32_t at = pc;
    size_t idx = c.code.size();
    uint32_t a = hsrc(), b = hsrc(), f3 = brf3();
    e(NOP);
    depth++;
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) block(true);
    uint32_t jat = pc;
    size_t jdx = c.code.size();
    e(NOP);
    if (idx < c.code.size()) c.code[idx].second = eB(f3, a, b, (int32_t)(pc - at));
    n = r.range(1, 4);
    for (int i = 0; i < n; i++) block(true);
    depth--;
    if (jdx < c.code.size()) c.code[jdx].second = eJ(0, (int32_t)(pc - jat));
  }
  int loops = 0;
  void b_loop() {
    if (loops >= 3) return b_skip();
    uint32_t cnt = CNT[loops++];
    e(eI(0x13, cnt, 0, 0, (int32_t)r.range(2, loops > 1 ? 4 : 12)));
    uint32_t top = pc;
    depth++;
    int n = r.range(1, 6);
    for (int i = 0; i < n; i++) block(true);
    depth--;
    e(eI(0x13, cnt, 0, cnt, -1));
    e(eB(1, cnt, 0, (int32_t)(top - pc)));
    loops--;
  }
  void b_call() {
    if (fns.empty()) return b_skip();
    auto fl = r.pick(fns);
    uint32_t f = fl.first, link = fl.second;
    if (r.pct(50)) {
      e(eJ(link, (int32_t)(f - pc)));
    } else { // auipc + jalr
      uint32_t t = r.pick({6u, 7u, 28u, 29u});
      uint32_t d = f - pc;
      int32_t lo = (int32_t)(d << 20) >> 20;
      e(eU(0x17, t, d - lo));
      e(eI(0x67, link, 0, t, lo));
    }
  }
  // computed jump into a small table of equal-sized slots
  void b_ind() {
    uint32_t t = dstnz(), u = dstnz();
    if (u == t) u = 5;
    uint32_t lg = r.range(1, 2), slots = 1u << lg;
    e(eI(0x13, t, 7, hsrc(), (int32_t)slots - 1));
    e(eR(0x13, t, 1, t, 3, 0)); // 8 bytes per slot
    e(eU(0x17, u, 0));
    e(eR(0x33, u, 0, u, t, 0));
    e(eI(0x67, r.pct(20) ? 1 : 0, 0, u, 12));
    uint32_t base = pc;
    for (uint32_t i = 0; i < slots; i++) {
      e(alu_word(dst(), hsrc(), hsrc()));
      e(eJ(0, (int32_t)(base + slots * 8 - pc)));
    }
  }
  void b_fence() { e(r.pick({0x0ff0000fu, 0x0330000fu, 0x8330000fu})); }
  void b_fencei() { e(0x0000100fu); }
  // ------------------------------------------------------------ CSR
  void b_csr() {
    if (prv == 0) return b_alu();
    uint32_t n;
    uint32_t s_only[] = {0x140, 0x140, 0x142, 0x143, 0x100, 0x104, 0x144};
    uint32_t m_only[] = {0x340, 0x340, 0x342, 0x343, 0x140, 0x142, 0x143, 0x301, 0xf14, 0x300, 0x302, 0x303, 0x304, 0x344, 0x100, 0x104, 0x144, 0x305, 0x105};
    n = prv == 3 ? m_only[r.below(19)] : s_only[r.below(7)];
    uint32_t f3 = r.pick({1u, 2u, 3u, 5u, 6u, 7u});
    uint32_t rs = r.pct(30) ? 0 : hsrc();
    bool ro = n == 0x301 || n == 0xf14 || n == 0x305 || n == 0x105;
    if (!pf.irq && (n == 0x303)) ro = true;
    bool sens = n == 0x300 || n == 0x100 || n == 0x304 || n == 0x104 || n == 0x344 || n == 0x144 || n == 0x302 || n == 0x303;
    if (ro) { e(eCsr(r.pick({2u, 3u, 6u, 7u}), dst(), n, 0)); return; }
    if (sens) {
      // only bits whose effect stays inside the modelled subset
      uint32_t mask;
      if (n == 0x300) mask = r.pick({1u << 18, 1u << 19, (1u << 18) | (1u << 19), 1u << 5, 1u << 7, 1u << 8});
      else if (n == 0x100) mask = r.pick({1u << 18, 1u << 19, 1u << 5, 1u << 8});
      else if (n == 0x302) mask = r.pick({1u << 8, 1u << 12, 1u << 13, 1u << 15, 1u << 2});
      else if (n == 0x303) mask = r.pick({0x222u, 0x080u, 0x800u, 0x8u});
      else if (n == 0x304 || n == 0x104) mask = pf.irq ? r.pick({0x222u, 0x2u, 0x20u, 0x200u, 0x888u, 0xaaau}) : r.pick({0x222u, 0x888u, 0xaaau, ~0u});
      else mask = pf.irq ? r.pick({2u, 0x20u, 0x200u}) : r.pick({2u, 0x20u, 0x200u, 0x222u});
      if (n == 0x303) { if (r.pct(50)) { e(eCsr(2, dst(), n, 0)); return; } }
      if (n == 0x302 && !pf.priv) { e(eCsr(2, dst(), n, 0)); return; }
      if (!pf.irq && (n == 0x304 || n == 0x104 || n == 0x344 || n == 0x144)) {
        // global interrupt enables stay off in these programs
        uint32_t t = dstnz();
        li(t, r.pct(50) ? mask : r.u32());
        e(eCsr(1 + r.below(3), dst(), n, t));
        return;
      }
      uint32_t t = dstnz();
      li(t, mask);
      e(eCsr(2 + r.below(2), dst(), n, t));
      return;
    }
    if (f3 >= 5) rs = r.below(32);
    e(eCsr(f3, dst(), n, rs));
  }
  // ----------------------------------------------------------- traps
  void b_ecall() {
    e(eI(0x13, 28, 0, 0, 0));
    e(ECALL);
  }
  void b_illegal() {
    e(r.pick({0x0000000bu, 0x0000002bu, 0x0000005bu, 0x0000007bu, 0xffffffffu, 0x00000000u, 0xc0102573u, 0xc8102573u}) |
      0);
  }
  void b_time() { e(eCsr(2, dst(), r.pick({0xc01u, 0xc81u}), 0)); }
  // access to an unmapped or protected page
  void b_pfault() {
    if (!translated) return b_illegal();
    uint32_t t = dstnz();
    uint32_t va = (r.pct(70) ? V_DATA + r.range(0, 31) * 0x1000u : vsup()) + (uint32_t)off(4);
    if (r.pct(20)) va = r.pick({0x00001000u, 0x3ffff000u, 0xfffff000u, 0x70000000u, V_PHYS + 0x00100000u});
    li(t, va & ~3u);
    switch (r.below(4)) {
    case 0: case 1: e(eI(0x03, dst(), r.pick({0u, 1u, 2u, 4u, 5u}), t, 0)); break;
    case 2: e(eS(r.below(3), t, hsrc(), 0)); break;
    case 3: e(eAmo(r.pick({0u, 1u, 2u, 3u, 8u}), dst(), t, 0, 0)); break;
    }
  }
  void b_fetchfault() {
    if (!translated) return b_illegal();
    uint32_t t = dstnz();
    uint32_t va = r.pick({V_DATA + r.range(0, 31) * 0x1000u, vsup(), 0x3ffff000u, 0xfffffff0u, 0x00000000u,
                          prv == 0 ? A_BODY : V_UCODE + 0x2000u});
    li(t, va);
    e(eU(0x17, 1, 0));
    e(eI(0x13, 1, 0, 1, 12));
    e(eI(0x67, 0, 0, t, 0));
  }
  // ---------------------------------------------------- privilege switching
  void la(uint32_t rd, int32_t d) { // rd = pc + d at this instruction
    int32_t lo = (int32_t)((uint32_t)d << 20) >> 20;
    e(eU(0x17, rd, (uint32_t)(d - lo)));
    e(eI(0x13, rd, 0, rd, lo));
  }
  void goto_priv(int np) {
    if (np == prv || (np == 3 && m_closed)) return;
    if (np > prv) { // ask the handler of a higher level to keep us there
      e(eI(0x13, 28, 0, 0, np == 3 ? 0x123 : 0x124));
      e(ECALL);
      // U asking for S with ecall-from-U not delegated lands in M, which
      // forwards the request
      prv = np;
      translated = use_vm && prv != 3;
      return;
    }
    uint32_t d = 5;
    if (prv == 3) {
      bool by_sret = r.pct(25); // the supervisor return works from M too
      if (by_sret) { // mstatus.SPP = np
        li(2, 1u << 8);
        e(eCsr(np ? 2 : 3, 0, 0x300, 2));
        if (r.pct(50)) { e(eI(0x13, 2, 0, 0, 1 << 5)); e(eCsr(2 + r.below(2), 0, r.pct(50) ? 0x100 : 0x300, 2)); }
      } else { // mstatus.MPP = np
        li(2, 3u << 11);
        e(eCsr(3, 0, 0x300, 2));
        if (np) { li(2, (uint32_t)np << 11); e(eCsr(2, 0, 0x300, 2)); }
        if (r.pct(30)) { li(2, 1u << 7); e(eCsr(2 + r.below(2), 0, 0x300, 2)); }
      }
      size_t i0 = c.code.size();
      uint32_t at = pc;
      e(NOP); e(NOP);
      if (use_vm && np == 0) { li(2, V_UCODE - 0x80000000u); e(eR(0x33, d, 0, d, 2, 0)); }
      e(eCsr(1, 0, by_sret ? 0x141 : 0x341, d));
      e(by_sret ? SRET : MRET);
      patch_la(i0, d, (int32_t)(pc - at));
    } else { // S -> U
      li(2, 1u << 8);
      e(eCsr(3, 0, 0x100, 2));
      size_t i0 = c.code.size();
      uint32_t at = pc;
      e(NOP); e(NOP);
      if (use_vm) { li(2, V_UCODE - 0x80000000u); e(eR(0x33, d, 0, d, 2, 0)); }
      e(eCsr(1, 0, 0x141, d));
      e(SRET);
      patch_la(i0, d, (int32_t)(pc - at));
    }
    prv = np;
    translated = use_vm && prv != 3;
  }
  void patch_la(size_t i0, uint32_t rd, int32_t d) {
    if (i0 + 1 >= c.code.size()) return;
    int32_t lo = (int32_t)((uint32_t)d << 20) >> 20;
    c.code[i0].second = eU(0x17, rd, (uint32_t)(d - lo));
    c.code[i0 + 1].second = eI(0x13, rd, 0, rd, lo);
  }
  void b_priv() {
    if (!pf.priv || depth > 0) return b_alu();
    int np = (int)r.pick({0u, 1u, 3u});
    goto_priv(np);
  }
  // --------------------------------------------------------------- VM ops
  void b_sfence() {
    if (prv == 0) return b_alu();
    e(r.pct(70) ? 0x12000073u : (0x12000073u | src() << 15 | (r.pct(30) ? src() << 20 : 0)));
  }
  // change a leaf PTE and fence; the new entry may grant, revoke or remap
  void b_remap() {
    if (!use_vm || prv == 0 || ptes.empty()) return b_ld();
    Pte p = r.pick(ptes);
    uint32_t a = prv == 3 ? p.at : V_PHYS + (p.at - 0x80000000u);
    li(2, a);
    if (p.super && r.pct(10)) li(5, ((p.at & ~0xfffu) + 0x2000u) >> 12 << 10 | 1); // back to a table
    else li(5, leaf(p.super ? 0x80000000u + (r.pct(8) ? 0x1000u : 0) : r.pick(datapages), r.pct(25)));
    e(eS(2, 2, 5, 0));
    if (!p.super && prv == 1 && r.pct(35)) { // only the changed page
      li(2, p.va);
      if (r.pct(40)) {
        e(eCsr(2, 5, 0x180, 0));
        e(eI(0x13, 5, 5, 5, 22));
        e(eI(0x13, 5, 7, 5, 0x1ff));
        e(0x12000073u | 2u << 15 | 5u << 20);
      } else e(0x12000073u | 2u << 15);
    } else e(0x12000073u);
    if (r.pct(40)) touch(p.super ? p.va + (r.pick(datapages) - 0x80000000u) : p.va);
    else if (r.pct(30)) b_touch();
  }
  // a data page seen through one of the data superpages
  uint32_t vsup() { return V_SUP + r.below(4) * 0x400000u + (r.pick(datapages) - 0x80000000u); }
  void touch(uint32_t page) {
    if (!translated) return;
    uint32_t t = dstnz();
    li(t, page + ((uint32_t)off(4) & ~3u));
    if (r.pct(60)) e(eI(0x03, dst(), 2, t, 0)); else e(eS(2, t, hsrc(), 0));
  }
  void b_touch() { // touch the whole data window at random pages
    if (!translated) return b_ld();
    touch(r.pct(75) ? V_DATA + r.below(24) * 0x1000u : vsup());
  }
  void b_satp() { // switch address spaces
    if (!use_vm || prv == 0) return b_ld();
    bool b = r.pct(50);
    uint32_t root = b ? A_PTB : A_PT;
    li(2, 0x80000000u | (spaces ? 1 + b : r.below(4)) << 22 | root >> 12);
    e(eCsr(1, r.pct(50) ? 0 : 5, 0x180, 2));
    if (!spaces || r.pct(15)) e(0x12000073u);
    if (spaces) { int n = r.below(3); for (int i = 0; i < n; i++) b_touch(); }
  }
  uint32_t leaf(uint32_t pa, bool odd) {
    uint32_t fl = 0xcf; // V R W X A D
    if (r.pct(60)) fl |= 0x10;
    if (r.pct(10)) fl |= 0x20;
    if (odd && r.pct(40)) { // any mixture of bits
      fl = r.below(256) | (r.pct(90) ? 1 : 0);
      if (!(fl & 0xe)) fl |= 2;
    } else if (odd) {
      switch (r.below(9)) {
      case 0: fl = 0; break;
      case 1: fl &= ~0x80u; break;
      case 2: fl &= ~0x40u; break;
      case 3: fl &= ~4u; break;
      case 4: fl &= ~0xau; fl |= 8; fl &= ~4u; break; // execute only
      case 5: fl &= ~8u; break;
      case 6: fl = (fl & ~2u) | 4; break; // write without read: reserved
      case 7: fl &= ~1u; break;
      case 8: fl |= 0x20; break; // global
      }
    }
    return (pa >> 12) << 10 | fl | (r.below(4) << 8);
  }
  void b_mprv() {
    if (!use_vm || prv != 3) return b_ld();
    // M-mode access with the privilege and translation of S or U
    li(2, 3u << 11);
    e(eCsr(3, 0, 0x300, 2));
    li(2, (1u << 17) | (r.below(2) << 11));
    e(eCsr(2, 0, 0x300, 2));
    uint32_t t = 5;
    li(t, (r.pct(70) ? V_DATA + r.below(20) * 0x1000u : vsup()) + ((uint32_t)off(4) & ~3u));
    if (r.pct(50)) e(eI(0x03, dst(), 2, t, 0)); else e(eS(2, t, hsrc(), 0));
    li(2, 1u << 17);
    e(eCsr(3, 0, 0x300, 2));
  }
  // ------------------------------------------------------------------ SMC
  int smc_n = 0;
  void b_smc() {
    if (prv == 0) return b_alu();
    // patch an instruction in an out-of-line slot, fence.i, call it
    uint32_t slot = A_SMC + r.below(6) * 0x40u * r.pick({1u, 1u, 16u});
    uint32_t va = translated ? V_PHYS + (slot - 0x80000000u) : slot;
    int n = r.range(1, 3);
    li(2, va);
    for (int i = 0; i < n; i++) {
      uint32_t w = alu_word(dstnz(), hsrc(), hsrc());
      if ((w & 0x7f) == 0x17) w = NOP;
      li(5, w);
      e(eS(2, 2, 5, i * 4));
    }
    li(5, 0x00008067); // ret
    e(eS(2, 2, 5, n * 4));
    int k = r.below(3);
    for (int i = 0; i < k; i++) b_alu_safe();
    e(0x0000100fu);
    uint32_t d = slot - pc;
    int32_t lo = (int32_t)(d << 20) >> 20;
    e(eU(0x17, 6, d - lo));
    e(eI(0x67, 1, 0, 6, lo));
    smc_n++;
  }
  void b_alu_safe() { uint32_t d; do d = dstnz(); while (d == 2 || d == 5); e(alu_word(d, hsrc(), hsrc())); }
  // patch inside the straight-line path just ahead
  void b_smc_inline() {
    if (prv == 0) return b_alu();
    li(5, alu_word(dstnz(), hsrc(), hsrc()));
    size_t i0 = c.code.size();
    uint32_t at = pc;
    e(NOP); e(NOP);
    if (translated) { li(1, V_PHYS - 0x80000000u); e(eR(0x33, 2, 0, 2, 1, 0)); }
    e(eS(2, 2, 5, 0));
    e(0x0000100fu);
    int k = r.below(4);
    for (int i = 0; i < k; i++) b_alu();
    patch_la(i0, 2, (int32_t)(pc - at));
    e(NOP);
  }
  // ----------------------------------------------------------------- MMIO
  bool mmio_ok() const { return prv != 0 || !use_vm; }
  void b_mmio() {
    if (!mmio_ok()) return b_ld();
    uint32_t t = dstnz();
    switch (r.below(12)) {
    case 0: li(t, 0x10000000u); e(eI(0x13, 2, 0, 0, (int32_t)r.range(33, 126))); e(eS(0, t, 2, 0)); break;
    case 1: li(t, 0x10000000u); e(eI(0x03, dst(), r.pick({0u, 2u, 4u, 1u, 5u}), t, 4)); break;
    case 2: li(t, 0x10000000u); e(eS(r.below(3), t, hsrc(), r.pick({8, 12, 0x40}))); if (r.pct(70)) e(eI(0x03, dst(), 2, t, r.pick({8, 12, 0x40}))); break;
    case 3: li(t, 0x0c000000u + r.below(64) * 4); e(eS(2, t, hsrc(), 0)); if (r.pct(70)) e(eI(0x03, dst(), 2, t, 0)); break;
    case 4: li(t, 0x1fd0e000u); e(eI(0x03, dst(), 2, t, r.pick({0, 4}))); break;
    case 5: li(t, 0x1fd0e000u); e(eI(0x03, dst(), 2, t, r.pick({8, 12}))); break;
    case 6: li(t, 0x1fd0f000u); e(eS(2, t, hsrc(), r.pick({0, 4, 8, 16}))); e(eI(0x03, dst(), 2, t, r.pick({0, 4, 8, 16, 12}))); break;
    case 7: li(t, 0x10000000u); e(eI(0x13, 2, 0, 0, r.pick({5, 7, 3}))); if (!pf.irq) e(eI(0x13, 2, 0, 0, 5)); e(eS(0, t, 2, 1)); e(eI(0x03, dst(), 2, t, 0)); break;
    case 8: li(t, 0x0c201004u); e(eI(0x03, dst(), 2, t, 0)); break;
    case 9: { // back-to-back device stores and loads
      li(t, 0x0c000000u + 0x100);
      int n = r.range(2, 6);
      for (int i = 0; i < n; i++) {
        if (r.pct(50)) e(eS(r.below(3), t, hsrc(), (int32_t)r.below(4) * 4));
        else { uint32_t d = dst(); if (d == t) d = 5; e(eI(0x03, d, 2, t, (int32_t)r.below(4) * 4)); }
      }
      break;
    }
    case 10: b_dma(); break;
    case 11: // set the timer's count
      li(t, 0x1fd0e000u);
      if (t == 2) { b_alu(); break; }
      if (r.pct(50)) e(eI(0x03, 2, 2, t, 0)); else e(eI(0x13, 2, 0, 0, (int32_t)r.below(2000)));
      e(eI(0x13, 2, 0, 2, (int32_t)r.range(0, 600) - 300));
      if (r.pct(30)) e(eI(0x13, 2, 7, 2, 3));
      e(eS(2, t, 2, r.pct(30) ? 4 : 0));
      { uint32_t d = dst(); e(eI(0x03, d == t ? 5 : d, 2, t, 0)); }
      { uint32_t d = dst(); if (r.pct(40)) e(eI(0x03, d == t ? 5 : d, 2, t, 4)); }
      break;
    }
  }
  // console output told apart from the simulator's own messages, and plain device registers
  void b_con() {
    if (!mmio_ok()) return b_alu();
    uint32_t t = dstnz();
    switch (r.below(5)) {
    case 0: li(t, 0x10000000u); e(eS(r.below(3), t, hsrc(), r.pick({8, 12, 0x40}))); if (r.pct(70)) e(eI(0x03, dst(), 2, t, r.pick({8, 12, 0x40}))); break;
    case 1: li(t, 0x0c000000u + r.below(8) * 4); e(eS(2, t, hsrc(), 0)); if (r.pct(70)) e(eI(0x03, dst(), 2, t, 0)); break;
    case 2: li(t, 0x0c000000u + r.below(8) * 4); e(eI(0x03, dst(), 2, t, 0)); break;
    default: li(t, 0x10000000u); e(eI(0x13, 2, 0, 0, (int32_t)r.range(0x80, 0xff))); e(eS(0, t, 2, 0)); break;
    }
  }
  // copy between regions no cacheable access has touched
  int dma_n = 0;
  void b_dma() {
    if (!mmio_ok()) return b_ld();
    uint32_t k = (uint32_t)dma_n++;
    uint32_t s = 0x80400000u + k * 0x1000u, d = 0x80500000u + k * 0x1000u, n = r.range(1, 200);
    for (uint32_t i = 0; i < n + 4; i += 4) put(s + i, r.u32());
    li(2, 0x1fd0f000u);
    s += r.below(8); d += r.below(8);
    if (r.pct(12)) d = 0x70000000u; // not RAM
    li(5, s); e(eS(2, 2, 5, 0));
    li(5, d); e(eS(2, 2, 5, 4));
    li(5, n); e(eS(2, 2, 5, 8));
    e(eI(0x13, 5, 0, 0, (pf.irq && r.pct(40)) ? 3 : 1)); e(eS(2, 2, 5, 12));
    e(eI(0x03, 5, 2, 2, 16));
    if (r.pct(30)) { e(eI(0x13, 5, 0, 0, (int32_t)r.below(8))); e(eS(2, 2, 5, 16)); e(eI(0x03, dst(), 2, 2, 16)); }
  }
  // ------------------------------------------------------------ interrupts
  void b_irq() {
    if (!pf.irq || prv == 0) return b_alu();
    switch (r.below(8)) {
    case 0: { // software/timer/external bits by writing pending registers
      if (prv != 3) { e(eI(0x13, 2, 0, 0, r.pick({0x2, 0x20, 0x200}))); e(eCsr(2, 0, 0x144, 2)); break; }
      e(eI(0x13, 2, 0, 0, r.pick({0x2, 0x8, 0x20, 0x200})));
      e(eCsr(2, 0, 0x344, 2));
      break;
    }
    case 1: // global enables
      if (prv == 3) e(eCsr(r.pct(70) ? 6 : 7, 0, 0x300, r.pick({8u, 2u, 10u})));
      else e(eCsr(r.pct(70) ? 6 : 7, 0, 0x100, 2));
      break;
    case 2: // per-source enables
      li(2, prv == 3 ? r.pick({0x80u, 0x800u, 0x8u, 0x222u, 0xaaau, 0x20u, 0x2u}) : r.pick({0x222u, 0x2u, 0x20u}));
      e(eCsr(r.pct(80) ? 2 : 3, 0, prv == 3 ? 0x304 : 0x104, 2));
      break;
    case 3: // timer in the near future
      if (!mmio_ok()) break;
      li(2, 0x1fd0e000u);
      e(eI(0x03, 5, 2, 2, 0));
      e(eI(0x13, 5, 0, 5, (int32_t)r.range(1, 800)));
      e(eS(2, 2, 0, 12));
      e(eS(2, 2, 5, 8));
      break;
    case 4: // far future
      if (!mmio_ok()) break;
      li(2, 0x1fd0e000u);
      e(eI(0x13, 5, 0, 0, -1));
      e(eS(2, 2, 5, 12));
      break;
    case 5: // device interrupt
      if (!mmio_ok()) break;
      li(2, 0x10000000u);
      e(eI(0x13, 5, 0, 0, 7));
      e(eS(0, 2, 5, 1));
      break;
    case 6: b_dma(); break;
    case 7: if (prv == 3 && r.pct(40)) { li(2, r.pick({0x80u, 0x800u})); e(eCsr(2 + r.below(2), 0, 0x303, 2)); } break;
    }
  }
  // make something pending, drop to a lower level and stay there for a while
  void b_pend() {
    if (!pf.irq || prv == 0 || depth > 0) return b_alu();
    const bool m = prv == 3;
    li(2, m ? r.pick({0x222u, 0x2u, 0xaaau, 0x888u}) : r.pick({0x222u, 0x2u}));
    e(eCsr(2, 0, m ? 0x304 : 0x104, 2));
    e(eCsr(r.pct(35) ? 6 : 7, 0, m ? 0x300 : 0x100, m ? r.pick({2u, 8u, 10u}) : 2u));
    const bool late = r.pct(50) && mmio_ok();
    if (late) { // becomes pending after the drop
      li(2, 0x1fd0e000u);
      e(eI(0x03, 5, 2, 2, 0));
      e(eI(0x13, 5, 0, 5, (int32_t)r.range(20, 300)));
      e(eS(2, 2, 0, 12));
      e(eS(2, 2, 5, 8));
    }
    if (!late || r.pct(30)) {
      e(eI(0x13, 2, 0, 0, m ? r.pick({0x2, 0x20, 0x200, 0x222}) : 2));
      e(eCsr(2, 0, m ? 0x344 : 0x144, 2));
    }
    if (r.pct(80)) goto_priv(m ? (int)r.below(2) : 0);
    int n = r.range(10, 50);
    for (int i = 0; i < n; i++) switch (r.below(6)) {
      case 0: if (!(use_vm && prv == 3)) { b_ld(); break; } [[fallthrough]];
      case 1: b_div(); break;
      default: b_alu();
    }
  }
  // Functions made of jumps whose addresses differ by a multiple of a large
  // power of two: they compete for the same entries of the predictors and of
  // the instruction cache.
  void chains() {
    int nc = r.range(1, 3);
    for (int k = 0; k < nc; k++) {
      uint32_t stride = r.pick({0x100u, 0x400u, 0x400u, 0x800u, 0x1000u});
      int n = (int)std::min<uint32_t>(r.range(5, 16), 0x10000u / stride);
      uint32_t at = A_CHAIN + (uint32_t)k * 0x40u + r.below(4) * 4u;
      uint32_t link = r.pick({1u, 1u, 5u});
      std::vector<uint32_t> hop;
      for (int i = 0; i < n; i++) hop.push_back(at + (uint32_t)i * stride);
      if (r.pct(50))
        for (int i = n - 1; i > 0; i--) std::swap(hop[i], hop[r.below((uint32_t)i + 1)]);
      for (int i = 0; i < n; i++) {
        pc = hop[i];
        if (r.pct(40)) e(alu_word(r.pick({6u, 7u, 28u}), hsrc(), hsrc()));
        if (i == n - 1) { e(eI(0x67, 0, 0, link, 0)); break; }
        int32_t d = (int32_t)(hop[i + 1] - pc);
        uint32_t how = r.below(4);
        if (how < 2 && d >= -4096 && d < 4096) {
          uint32_t q = hsrc();
          e(how ? eB(0, q, q, d) : eB(brf3(), hsrc(), hsrc(), d));
          e(eJ(0, (int32_t)(hop[i + 1] - pc)));
        } else if (how == 2) {
          uint32_t lo = (uint32_t)((int32_t)((uint32_t)d << 20) >> 20);
          e(eU(0x17, 7, (uint32_t)d - lo));
          e(eI(0x67, 0, 0, 7, (int32_t)lo));
        } else
          e(eJ(0, d));
      }
      fns.push_back({hop[0], link});
      fns.push_back({hop[0], link});
    }
  }
  // ----------------------------------------------------------- dispatch
  void block(bool nested) {
    if (limit && pc + 160 >= limit) { hit_limit = true; return; }
    int tot = 0;
    for (auto &k : pf.w) tot += k.second;
    int x = (int)r.below((uint32_t)tot);
    std::string k;
    for (auto &q : pf.w) { x -= q.second; if (x < 0) { k = q.first; break; } }
    if (nested && depth > 3 && (k == "skip" || k == "ifelse" || k == "loop")) k = "alu";
    if (k == "alu") b_alu();
    else if (k == "mul") b_mul();
    else if (k == "div") b_div();
    else if (k == "fp") b_fp();
    else if (k == "ld") b_ld();
    else if (k == "st") b_st();
    else if (k == "cld") b_cld();
    else if (k == "cst") b_cst();
    else if (k == "stld") b_stld();
    else if (k == "conflict") b_conflict();
    else if (k == "storm") b_storm();
    else if (k == "wild") b_wild();
    else if (k == "amo") b_amo();
    else if (k == "lrsc") b_lrsc();
    else if (k == "skip") b_skip();
    else if (k == "ifelse") b_ifelse();
    else if (k == "loop") b_loop();
    else if (k == "call") b_call();
    else if (k == "ind") b_ind();
    else if (k == "con") b_con();
    else if (k == "fence") b_fence();
    else if (k == "fencei") b_fencei();
    else if (k == "csr") b_csr();
    else if (k == "ecall") b_ecall();
    else if (k == "illegal") b_illegal();
    else if (k == "time") b_time();
    else if (k == "pfault") b_pfault();
    else if (k == "fetchfault") b_fetchfault();
    else if (k == "priv") b_priv();
    else if (k == "sfence") b_sfence();
    else if (k == "remap") b_remap();
    else if (k == "touch") b_touch();
    else if (k == "satp") b_satp();
    else if (k == "mprv") b_mprv();
    else if (k == "smc") b_smc();
    else if (k == "smcin") b_smc_inline();
    else if (k == "mmio") b_mmio();
    else if (k == "irq") b_irq();
    else if (k == "pend") b_pend();
  }

  // -------------------------------------------------------- handlers
  void handler(bool m) {
    uint32_t base = m ? A_MH : A_SH;
    const uint32_t h0 = m ? 30 : 26, h1 = m ? 31 : 27, h2 = m ? 29 : 25;
    uint32_t cause = m ? 0x342 : 0x142, epc = m ? 0x341 : 0x141, ip = m ? 0x344 : 0x144;
    pc = base;
    limit = 0;
    uint32_t body = base + 64;
    if (tv_vec) {
      for (int i = 0; i < 16; i++) e(eJ(0, (int32_t)(body - pc)));
    } else {
      e(eJ(0, (int32_t)(body - pc)));
    }
    pc = body;
    e(eCsr(2, h0, cause, 0));
    size_t i_irq = c.code.size(); uint32_t a_irq = pc; e(NOP); // bltz x30, irq
    e(eI(0x13, h1, 0, 0, 12));
    size_t i_ff = c.code.size(); uint32_t a_ff = pc; e(NOP); // beq x30,x31, ff
    // upward privilege requests
    e(eI(0x13, h1, 0, 0, m ? 0x123 : 0x124));
    size_t i_up = c.code.size(); uint32_t a_up = pc; e(NOP); // beq x28,x31, up
    size_t i_up2 = 0; uint32_t a_up2 = 0;
    if (m) {
      e(eI(0x13, h1, 0, 0, 0x124));
      i_up2 = c.code.size(); a_up2 = pc; e(NOP);
    }
    if (!m) {
      e(eI(0x13, h1, 0, 0, 0x123));
      i_up2 = c.code.size(); a_up2 = pc; e(NOP);
    }
    uint32_t resume = pc;
    int n = r.below(4);
    for (int i = 0; i < n; i++) { e(alu_word(h2, hsrc(), hsrc())); }
    e(eCsr(2, h1, epc, 0));
    e(eI(0x13, h1, 0, h1, 4));
    e(eCsr(1, 0, epc, h1));
    e(m ? MRET : SRET);
    // up: continue at this level right after the ecall, unless the trap was
    // something other than an ecall
    c.code[i_up].second = eB(0, 28, h1, (int32_t)(pc - a_up));
    uint32_t up_at = pc;
    e(eI(0x13, h1, 0, h0, -8)); // cause 8,9,11 are environment calls
    e(eI(0x13, h2, 0, 0, 4));
    e(eB(7, h1, h2, (int32_t)(resume - pc)));
    e(eI(0x13, 28, 0, 0, 0));
    e(eCsr(2, h1, epc, 0));
    e(eR(0x13, h1, 1, h1, 2, 0));
    e(eR(0x13, h1, 5, h1, 2, 0));
    e(eU(0x37, h0, 0x80000000u));
    e(eR(0x33, h1, 6, h1, h0, 0));
    e(eI(0x67, 0, 0, h1, 4));
    if (m) { // forward "S please" from U: mret into S right after the ecall
      c.code[i_up2].second = eB(0, 28, h1, (int32_t)(pc - a_up2));
      e(eI(0x13, h1, 0, h0, -8));
      e(eI(0x13, h2, 0, 0, 4));
      e(eB(7, h1, h2, (int32_t)(resume - pc)));
      e(eI(0x13, 28, 0, 0, 0));
      li(h1, 3u << 11); e(eCsr(3, 0, 0x300, h1));
      li(h1, 1u << 11); e(eCsr(2, 0, 0x300, h1));
      e(eCsr(2, h1, epc, 0));
      e(eR(0x13, h1, 1, h1, 2, 0));
      e(eR(0x13, h1, 5, h1, 2, 0));
      e(eU(0x37, h0, 0x80000000u));
      e(eR(0x33, h1, 6, h1, h0, 0));
      e(eI(0x13, h1, 0, h1, 4));
      e(eCsr(1, 0, epc, h1));
      e(MRET);
    }
    else { // "M please" reached S: pass it on, then continue as M
      c.code[i_up2].second = eB(0, 28, h1, (int32_t)(pc - a_up2));
      e(eI(0x13, h1, 0, h0, -8));
      e(eI(0x13, h2, 0, 0, 4));
      e(eB(7, h1, h2, (int32_t)(resume - pc)));
      e(ECALL);
      e(eJ(0, (int32_t)(up_at - pc)));
    }
    // fetch fault: resume where x1 says
    c.code[i_ff].second = eB(0, h0, h1, (int32_t)(pc - a_ff));
    e(eCsr(1, 0, epc, 1));
    e(m ? MRET : SRET);
    // interrupt: clear the source
    c.code[i_irq].second = eB(4, h0, 0, (int32_t)(pc - a_irq));
    e(eI(0x13, h0, 7, h0, 15));
    e(eI(0x13, h1, 0, 0, 1));
    e(eR(0x33, h1, 1, h1, h0, 0));
    e(eCsr(3, 0, ip, h1));
    if (m) { e(eI(0x13, h1, 0, 0, 7)); }
    else { e(eI(0x13, h1, 0, 0, 5)); }
    size_t i_nt = c.code.size(); uint32_t a_nt = pc; e(NOP); // bne x30,x31, not timer
    if (m && r.pct(40)) {
      li(h1, 0x80); e(eCsr(3, 0, 0x304, h1));
    } else {
      li(h0, 0x1fd0e000u); e(eI(0x13, h1, 0, 0, -1)); e(eS(2, h0, h1, 12));
    }
    e(m ? MRET : SRET);
    c.code[i_nt].second = eB(1, h0, h1, (int32_t)(pc - a_nt));
    e(eI(0x13, h1, 0, 0, m ? 11 : 9));
    size_t i_ne = c.code.size(); uint32_t a_ne = pc; e(NOP);
    li(h0, 0x0c201004u);
    e(eI(0x03, h1, 2, h0, 0));
    e(eS(2, h0, h1, 0));
    c.code[i_ne].second = eB(1, h0, h1, (int32_t)(pc - a_ne));
    e(m ? MRET : SRET);
  }

  void tables() {
    // identity superpages for code (S) and devices, a U alias of the code,
    // a window on physical memory, and randomly protected data pages
    for (int k = 0; k < 2; k++) {
      uint32_t root = k ? A_PTB : A_PT, l2c = root + 0x1000, l2d = root + 0x2000, l2u = root + 0x3000;
      auto super = [&](uint32_t va, uint32_t pa, uint32_t fl) { put(root + (va >> 22) * 4, (pa >> 12) << 10 | fl); };
      bool small = r.pct(50);
      if (small) { // 4 KiB pages for code
        put(root + (0x80000000u >> 22) * 4, (l2c >> 12) << 10 | 1);
        for (uint32_t i = 0; i < 0x40; i++) put(l2c + i * 4, ((0x80000000u >> 12) + i) << 10 | 0xcf);
        put(root + (V_UCODE >> 22) * 4, (l2u >> 12) << 10 | 1);
        for (uint32_t i = 0; i < 0x40; i++) put(l2u + i * 4, ((0x80000000u >> 12) + i) << 10 | 0xdf);
      } else {
        super(0x80000000u, 0x80000000u, 0xcf);
        super(V_UCODE, 0x80000000u, 0xdf);
      }
      super(V_PHYS, 0x80000000u, 0xc7);
      super(0x0c000000u, 0x0c000000u, 0xc7);
      super(0x10000000u, 0x10000000u, 0xc7);
      super(0x1fc00000u, 0x1fc00000u, 0xc7);
      if (r.pct(50)) super(0x3ffff000u, 0x80001000u, 0xdf); // misaligned superpage: faults
      put(root + (V_DATA >> 22) * 4, (l2d >> 12) << 10 | 1);
      for (uint32_t i = 0; i < 20; i++) {
        uint32_t pa = i < 12 ? A_DATA + (i % 6) * 0x4000u + (i / 6) * 0x1000u : r.pick(datapages);
        uint32_t v;
        if (i < 6) v = (pa >> 12) << 10 | 0xc7 | (r.pct(92) ? 0x10 : 0); // base pointers stay usable
        else v = leaf(pa, r.pct(40));
        shared(l2d + i * 4, v, k);
        if (i >= 6 || r.pct(15)) ptes.push_back({l2d + i * 4, V_DATA + i * 0x1000u, false});
      }
      for (uint32_t i = 0; i < 4; i++) {
        uint32_t at = root + ((V_SUP >> 22) + i) * 4;
        shared(at, leaf(0x80000000u, r.pct(40)), k);
        ptes.push_back({at, V_SUP + i * 0x400000u, true});
      }
    }
  }
  // Entry of table k; a global entry of the first table is repeated in the second.
  std::unordered_map<uint32_t, uint32_t> first_table;
  void shared(uint32_t at, uint32_t v, int k) {
    if (!k) first_table[at] = v;
    else if (spaces) {
      uint32_t o = first_table[at - (A_PTB - A_PT)];
      v = (o & 0x20) ? o : v & ~0x20u;
    }
    put(at, v);
  }

  Case build() {
    for (int i = 0; i < 6; i++) { datapages.push_back(A_DATA + i * 0x4000u); datapages.push_back(A_DATA + i * 0x4000u + 0x1000u); }
    int nh = r.range(2, 8);
    if (r.pct(70)) for (int i = 0; i < nh; i++) hot.push_back(r.pick({3u, 4u, 6u, 7u, 10u, 11u, 12u, 13u, 14u, 15u, 16u, 17u}));
    use_vm = pf.vm && r.pct(90);
    tv_vec = (pf.irq || pf.priv) && r.pct(50);
    spaces = r.pct(50);
    if (use_vm) tables();
    for (auto p : datapages) {
      uint32_t n = r.below(40);
      for (uint32_t i = 0; i < n; i++) put(p + (uint32_t)(r.below(64) * 4), val());
    }
    // out-of-line functions, spread over page-sized strides
    if (pf.W("call")) {
      int nf = r.range(2, 12);
      bool far = r.pct(40);
      std::vector<uint32_t> leaves;
      for (int i = 0; i < nf; i++) {
        uint32_t f = A_FN + (uint32_t)i * (far ? 0x1000u : 0x80u);
        pc = f;
        limit = f + 0x80;
        int n = r.range(1, 5);
        for (int k = 0; k < n; k++) {
          switch (r.below(4)) {
          case 0: b_ld(); break;
          case 1: b_st(); break;
          default: b_alu();
          }
        }
        if (!leaves.empty() && r.pct(35)) { // nested call with the link kept in x2
          e(eI(0x13, 2, 0, 1, 0));
          e(eJ(1, (int32_t)(r.pick(leaves) - pc)));
          e(eI(0x67, 0, 0, 2, 0));
          fns.push_back({f, 1});
          continue;
        }
        uint32_t link = r.pick({1u, 1u, 1u, 5u});
        e(eI(0x67, 0, 0, link, 0));
        fns.push_back({f, link});
        if (link == 1) leaves.push_back(f);
      }
      limit = 0;
      if (r.pct(35)) chains();
    }
    handler(true);
    handler(false);
    if (pf.W("smc"))
      for (uint32_t i = 0; i < 6; i++) for (uint32_t s : {1u, 16u}) {
        uint32_t slot = A_SMC + i * 0x40u * s;
        bool dup = false;
        for (auto &w : c.code) if (w.first == slot) dup = true;
        if (!dup) c.code.push_back({slot, 0x00008067u});
      }
    // entry
    pc = A_ENTRY;
    limit = A_MH;
    li(5, A_MH | (tv_vec ? 1 : 0)); e(eCsr(1, 0, 0x305, 5));
    li(5, A_SH | (tv_vec ? 1 : 0)); e(eCsr(1, 0, 0x105, 5));
    if (pf.priv) {
      medeleg = 0;
      for (uint32_t b : {8u, 12u, 13u, 15u, 2u}) if (r.pct(50)) medeleg |= 1u << b;
      if (r.pct(15)) { medeleg |= 1u << 9; m_closed = true; } // S can no longer call into M
      li(5, medeleg); e(eCsr(1, 0, 0x302, 5));
    }
    if (pf.irq) {
      li(5, 0x222u | (r.pct(25) ? 0x80u : 0) | (r.pct(25) ? 0x800u : 0)); e(eCsr(1, 0, 0x303, 5));
      if (r.pct(80)) { // push the first timer interrupt away from reset
        li(2, 0x1fd0e000u); e(eI(0x13, 5, 0, 0, -1)); e(eS(2, 2, 5, 12));
      }
      li(5, r.pick({0xaaau, 0x888u, 0x222u, 0x80u, 0u, 0x8aau})); e(eCsr(1, 0, 0x304, 5));
      if (r.pct(70)) e(eCsr(6, 0, 0x300, r.pick({8u, 10u})));
    }
    if (use_vm) {
      li(5, (r.pct(60) ? 1u << 18 : 0) | (r.pct(40) ? 1u << 19 : 0)); e(eCsr(2, 0, 0x300, 5));
      li(5, 0x80000000u | (spaces ? 1u << 22 : 0) | A_PT >> 12); e(eCsr(1, 0, 0x180, 5));
      e(0x12000073u);
    }
    for (int i = 1; i < 32; i++) {
      bool isptr = false;
      for (int k = 0; k < 6; k++) if (PTR[k] == (uint32_t)i) { isptr = true; li(i, (use_vm ? V_DATA + k * 0x1000u : A_DATA + k * 0x4000u)); }
      if (!isptr) li(i, val());
    }
    // x28 must not look like a privilege request by accident
    e(eI(0x13, 28, 0, 0, 0));
    { // jump to the body
      uint32_t d = A_BODY - pc;
      int32_t lo = (int32_t)(d << 20) >> 20;
      e(eU(0x17, 5, d - lo));
      e(eI(0x67, 0, 0, 5, lo));
    }
    limit = 0;
    pc = A_BODY + r.below(16) * 4;
    // pad from A_BODY
    { uint32_t t = pc; for (pc = A_BODY; pc < t;) e(NOP); }
    limit = A_FN - 0x100;
    c.code.reserve(4096);
    if (pf.priv || pf.vm) {
      int np = (int)r.pick({0u, 1u, 1u, 3u});
      if (use_vm && !pf.priv) np = 1;
      goto_priv(np);
    }
    int n = (int)r.range((uint32_t)pf.body / 3, (uint32_t)pf.body);
    for (int i = 0; i < n && !hit_limit; i++) {
      if (use_vm && prv == 3) {
        // in M-mode the virtual base pointers are unusable: only run blocks
        // that do not use them, then drop back
        switch (r.below(6)) {
        case 0: b_alu(); break;
        case 1: b_csr(); break;
        case 2: if (pf.W("mprv")) b_mprv(); break;
        case 3: if (pf.W("remap")) b_remap(); break;
        case 4: if (pf.W("pend") && r.pct(40)) b_pend(); else if (pf.W("irq")) b_irq(); else b_alu(); break;
        case 5: goto_priv((int)r.below(2)); break;
        }
        continue;
      }
      block(false);
    }
    limit = 0;
    if (!(use_vm && prv == 3)) {
      // read back a sample of memory
      int m = r.range(4, 16);
      for (int i = 0; i < m; i++) b_ld();
    }
    e(r.pct(90) ? EBREAK : WFI);
    c.p["maxcommit"] = pf.maxcommit;
    sched();
    return c;
  }

  void sched() {
    c.p["seed"] = (int64_t)(r.u32() & 0x7fffffff);
    switch (r.below(4)) {
    case 0: // ideal
      c.p["ready"] = 100; c.p["lmin"] = 1; c.p["lmax"] = 4; c.p["tail"] = 0; c.p["tmax"] = 0; c.p["reorder"] = 0;
      break;
    case 1:
      c.p["ready"] = r.range(60, 100); c.p["lmin"] = 1; c.p["lmax"] = r.range(8, 64); c.p["tail"] = 5; c.p["tmax"] = 200; c.p["reorder"] = r.below(2);
      break;
    case 2:
      c.p["ready"] = r.range(10, 60); c.p["lmin"] = r.range(1, 100); c.p["lmax"] = c.p["lmin"] + r.below(300); c.p["tail"] = r.below(20); c.p["tmax"] = r.range(100, 1500); c.p["reorder"] = 1;
      break;
    default: // long, regular
      c.p["ready"] = 100; c.p["lmin"] = c.p["lmax"] = r.range(100, 800); c.p["tail"] = 0; c.p["tmax"] = 0; c.p["reorder"] = r.below(2);
      break;
    }
    c.p["maxout"] = r.pick({1u, 2u, 4u, 8u, 16u});
    // fetch behaviour of the synthetic front end (back-end builds only)
    c.p["mp_cond"] = r.pick({0u, 5u, 15u, 30u, 50u});
    c.p["mp_ind"] = r.pick({0u, 10u, 50u, 90u});
    c.p["bubble"] = r.pick({0u, 0u, 10u, 40u, 80u});
    c.p["short"] = r.pick({0u, 10u, 50u});
    c.p["cstall"] = r.pick({0u, 0u, 0u, 5u, 30u});
  }
};

inline Case make(uint64_t seed, const Profile &p) {
  Rng r(seed);
  Builder b(r, p);
  return b.build();
}

} // namespace gen
