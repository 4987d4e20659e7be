// Programs that repeat the same work many times: one loop, every pass alike.
// What a pass may cost once everything is warm is known from the program.
#pragma once
#include "gen.h"
#include <set>

namespace gen {

struct Steady {
  Rng &r;
  Case c;
  uint32_t pc = A_ENTRY;
  explicit Steady(Rng &rr) : r(rr) {}
  void e(uint32_t w) { c.code.push_back({pc, w}); pc += 4; }
  void li(uint32_t rd, uint32_t v) {
    int32_t lo = (int32_t)(v << 20) >> 20;
    e(eU(0x37, rd, v - (uint32_t)lo));
    e(eI(0x13, rd, 0, rd, lo));
  }
  // registers: x8 pass counter, x9 data base, x10..x13 chain, x14..x17 fillers, x18 data pointer, x5..x7 constants
  uint32_t cur = 10;
  uint32_t nextreg() { return r.pct(60) ? cur : 10 + r.below(4); }
  uint32_t konst() { return 5 + r.below(3); }
  void alu(uint32_t rd, uint32_t rs) {
    switch (r.below(5)) {
    case 0: e(eI(0x13, rd, 0, rs, (int32_t)r.below(2000) - 1000)); break;
    case 1: e(eR(0x33, rd, r.pick({0u, 4u, 6u, 7u}), rs, konst(), 0)); break;
    case 2: e(eR(0x33, rd, 0, rs, konst(), 0x20)); break;
    case 3: e(eI(0x13, rd, r.pick({1u, 5u}), rs, (int32_t)r.below(32))); break;
    default: e(eR(0x33, rd, r.pick({2u, 3u}), konst(), rs, 0)); break;
    }
  }
  void link(int kind) { // one step of the chain
    uint32_t to = nextreg();
    switch (kind) {
    case 0: alu(to, cur); break;
    case 1: e(eR(0x33, to, r.below(4), r.pct(50) ? cur : konst(), cur, 1)); break;
    case 2: e(eR(0x33, to, 4 + r.below(4), cur, konst(), 1)); break;
    case 3: e(eR(0x53, to, r.below(5), cur, konst(), r.pick({0u, 4u, 8u}))); break;
    case 4: e(eR(0x53, to, r.below(5), cur, konst(), 12)); break;
    case 5: { // through memory
      int32_t o = 192 + 4 * (int32_t)r.below(16);
      e(eS(2, 9, cur, o));
      for (uint32_t k = r.pick({0u, 0u, 1u, 4u}); k; k--) alu(fill(), konst());
      e(eI(0x03, to, 2, 9, o));
      break;
    }
    default: // a load whose address depends on the chain
      e(eR(0x33, to, 7, cur, 0, 0));
      e(eR(0x33, to, 0, to, 9, 0));
      e(eI(0x03, to, 2, to, (int32_t)r.below(16) * 4));
    }
    cur = to;
  }
  uint32_t fill() { return 14 + r.below(4); }
  void filler(bool br) {
    switch (r.below(br ? 6 : 5)) {
    case 0: case 1: alu(fill(), konst()); break;
    case 2: e(eI(0x03, fill(), 2, 9, (int32_t)r.below(16) * 4 + 64)); break;
    case 3: e(eS(2, 9, konst(), (int32_t)r.below(16) * 4 + 128)); break;
    case 4: e(eI(0x13, fill(), 0, 0, 1)); break;
    default: e(eB(1, 0, 0, 8)); break; // never taken
    }
  }
  // ------------------------------------------------------------- control flow, the same in every pass
  uint32_t fn_at = A_FN;
  bool far = false;
  void restart() { if (r.pct(25)) e(eI(0x73, 0, 1, 5, 0x140)); } // fetching starts again from the next instruction
  void flow(int depth) {
    switch (r.below(7)) {
    case 0: { // always taken
      static const uint32_t f[][3] = {{0, 0, 0}, {5, 5, 5}, {7, 6, 6}, {0, 7, 7}};
      auto &t = f[r.below(4)];
      int n = 1 + (int)r.below(6);
      e(eB(t[0], t[1], t[2], 4 * (n + 1)));
      for (int i = 0; i < n; i++) alu(fill(), konst());
      break;
    }
    case 1: // never taken
      e(eB(r.pick({1u, 4u, 6u}), 5, 5, 4 * (2 + (int)r.below(6))));
      break;
    case 2: { // jump
      int n = 1 + (int)r.below(8);
      e(eJ(0, 4 * (n + 1)));
      for (int i = 0; i < n; i++) alu(fill(), konst());
      break;
    }
    case 3: case 4: flow_call(depth); break;
    case 5: restart(); break;
    default: { // indirect jump, always to the same place
      int n = 1 + (int)r.below(4);
      e(eU(0x17, 19, 0));
      e(eI(0x67, 0, 0, 19, 8 + 4 * n));
      for (int i = 0; i < n; i++) alu(fill(), konst());
      break;
    }
    }
  }
  // a function keeps its return address in x20 + its level, so it may be called from that level or above
  std::vector<std::pair<uint32_t, int>> fns;
  void flow_call(int depth) {
    if (fns.size() && r.pct(35)) {
      auto &f = r.pick(fns);
      if (f.second >= depth) { e(eJ(1, (int32_t)(f.first - pc))); return; }
    }
    uint32_t f = fn_at, back;
    fn_at += far && r.pct(50) ? 0x1000 : 72 + 4 * r.below(40); // functions a page apart compete for the same lines of the cache
    e(eJ(1, (int32_t)(f - pc)));
    back = pc;
    pc = f;
    int n = 1 + (int)r.below(5);
    for (int i = 0; i < n; i++) alu(fill(), konst());
    if (depth < 3 && r.pct(40)) {
      uint32_t keep = 20 + (uint32_t)depth;
      e(eI(0x13, keep, 0, 1, 0));
      flow_call(depth + 1);
      restart();
      if (r.pct(30)) { flow_call(depth + 1); restart(); }
      e(eI(0x13, 1, 0, keep, 0));
    }
    e(eI(0x67, 0, 0, 1, 0));
    fns.push_back({f, depth});
    pc = back;
  }

  // 4 KiB pages mapped onto themselves; supervisor mode from here on
  std::set<uint32_t> pages;
  void translate() {
    li(19, 0x80000000u | (A_PT >> 12));
    e(eI(0x73, 0, 1, 19, 0x180));
    li(19, 0x1800);
    e(eI(0x73, 0, 3, 19, 0x300)); // MPP = supervisor
    li(19, 0x800);
    e(eI(0x73, 0, 2, 19, 0x300));
    e(eU(0x17, 19, 0));
    e(eI(0x13, 19, 0, 19, 16));
    e(eI(0x73, 0, 1, 19, 0x341));
    e(0x30200073u);
    translated = true;
  }
  bool translated = false;
  void tables() {
    if (!translated) return;
    for (auto &w : c.code) pages.insert(w.first >> 12);
    c.data.push_back({A_PT + 0x200 * 4, (A_PTB >> 12) << 10 | 1});
    for (uint32_t v : pages) c.data.push_back({A_PTB + (v & 0x3ff) * 4, v << 10 | 0xcf});
  }

  Case build(const std::string &prop) {
    uint32_t n;
    for (uint32_t k = 5; k < 8; k++) li(k, r.pick({1u, 3u, 0x3f800000u, 0x40490fdbu, 0xbf000000u, 7u, 0xffffffffu}) | (k == 5));
    li(9, A_DATA);
    for (uint32_t k = 10; k < 18; k++) li(k, r.u32());
    for (uint32_t a = 0; a < 64; a += 4) c.data.push_back({A_DATA + a, r.u32()});
    int passes;
    uint32_t top;
    pages.insert(A_DATA >> 12);
    if (r.pct(40)) translate();
    if (prop == "T01") {
      passes = 40;
      li(8, (uint32_t)passes);
      uint32_t pad = r.below(16);
      for (uint32_t i = 0; i < pad; i++) e(NOP);
      top = pc;
      bool independent = r.pct(15);
      if (independent) {
        n = 8 + r.below(50);
        for (uint32_t i = 0; i < n; i++) { if (r.pct(85)) alu(fill(), konst()); else e(eI(0x03, fill(), 2, 9, (int32_t)r.below(16) * 4)); }
      } else {
        n = 3 + r.below(22);
        int only = r.pct(40) ? (int)r.below(7) : -1;
        uint32_t fl = r.pick({0u, 0u, 15u, 40u});
        bool br = r.pct(40);
        for (uint32_t i = 0; i < n; i++) {
          link(only >= 0 ? only : r.pct(50) ? 0 : (int)r.below(7));
          while (r.pct(fl)) filler(br);
        }
        // the chain goes on in the next pass
        if (cur != 10) e(eI(0x13, 10, 0, cur, 0));
        cur = 10;
      }
    } else if (prop == "T02") {
      passes = (int)r.pick({200u, 300u});
      li(8, (uint32_t)passes);
      uint32_t pad = r.below(16);
      for (uint32_t i = 0; i < pad; i++) e(NOP);
      top = pc;
      n = 1 + r.below(r.pick({3u, 8u, 16u}));
      uint32_t vary = r.pct(40) ? 1 + r.below(2) : 0;
      for (uint32_t i = 0; i < n; i++) {
        flow(0);
        if (vary && r.pct(40)) { // a branch that goes the same way every second or fourth pass
          vary--;
          e(eI(0x13, 19, 7, 8, (int32_t)r.pick({1u, 2u, 3u})));
          int m = 1 + (int)r.below(4);
          e(eB(r.below(2), 19, 0, 4 * (m + 1)));
          for (int k = 0; k < m; k++) alu(fill(), konst());
        }
        for (uint32_t k = r.below(5); k; k--) alu(fill(), konst());
      }
    } else { // T03: memory
      passes = 60;
      far = r.pct(50);
      uint32_t calls = far ? 30 : 15;
      std::vector<uint32_t> at;
      for (uint32_t k = 1 + r.below(12); k; k--) at.push_back(A_DATA + r.pick({0x1000u, 0x4000u, 0x10000u}) * r.below(12));
      for (uint32_t a : at) pages.insert(a >> 12);
      li(8, (uint32_t)passes);
      top = pc;
      n = 4 + r.below(60);
      for (uint32_t i = 0; i < n; i++) {
        uint32_t a = r.pick(at) + (r.pct(50) ? r.below(4) : r.below(64)) * 64 + r.below(16) * 4;
        li(18, a);
        if (r.pct(50)) e(eI(0x03, fill(), 2, 18, 0)); else e(eS(2, 18, konst(), 0));
        if (r.pct(calls)) flow(0);
      }
    }
    e(eI(0x13, 8, 0, 8, -1));
    c.p["mark"] = pc;
    int32_t d = (int32_t)(top - pc);
    if (d > -4000) e(eB(1, 8, 0, d));
    else { e(eB(0, 8, 0, 8)); e(eJ(0, (int32_t)(top - pc))); }
    e(EBREAK);
    tables();
    c.p["steady"] = prop[2] - '0';
    c.p["maxcommit"] = 200000;
    c.p["seed"] = (int64_t)(r.u32() & 0x7fffffff);
    c.p["ready"] = 100; c.p["lmin"] = 1; c.p["lmax"] = r.pick({4u, 40u}); c.p["tail"] = 0; c.p["tmax"] = 0; c.p["reorder"] = 0;
    c.p["maxout"] = 8; c.p["mp_cond"] = 0; c.p["mp_ind"] = 0; c.p["bubble"] = 0; c.p["short"] = 0; c.p["cstall"] = 0;
    return c;
  }
};

inline Case make_steady(uint64_t seed, const std::string &prop) {
  Rng r(seed);
  Steady s(r);
  return s.build(prop);
}

} // namespace gen
