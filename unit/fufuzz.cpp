// Execution units driven through the interface the execute stage uses.
//   F01  results: one operation at a time, compared with the independent model
//   F02  delivery: streams of operations with squashes, resolved branches and back-pressure
#include "../common/driver.h"
#include "../golden/golden.h"
#include "Fu.h"
#include "FPU.h"
#include <deque>
#include <memory>

long long sim_time = 0;
static gold::Golden *G;

enum { U_ALU, U_MUL, U_DIV, U_FPU, U_RTL, N_UNITS };
static const char *const unit_name[] = {"ALU", "multiplier", "divider", "floating-point unit", "gate-level floating-point unit"};

static AbstractFU *unit(int u) {
  switch (u) {
  case U_ALU: return new AluUnit("ALU", 0);
  case U_MUL: return new MulUnit("MUL", 0);
  case U_DIV: return new DivUnit("DIV", 0, DIV_MAX_LATENCY);
  case U_FPU: return new FPUSoftfloat("FPU", 0);
  default: return new FPURtl("FPU", 0);
  }
}

// what the decoder hands to the units
static ExuInst operation(uint32_t w, uint32_t a, uint32_t b) {
  ExuInst x;
  uint32_t oc = w & 0x7f;
  x.src1_rdata = a;
  x.src2_rdata = b;
  x.func3 = w >> 12 & 7;
  x.func7 = w >> 25;
  x.imm = (uint32_t)((int32_t)w >> 20);
  x.src1_en = 1;
  x.src2_en = oc != 0x13;
  x.src2_is_imm = oc == 0x13;
  x.dest_en = 1;
  x.op = oc == 0x53 ? UOP_FP : oc == 0x33 && (w >> 25) == 1 ? ((w >> 12 & 7) < 4 ? UOP_MUL : UOP_DIV) : UOP_ADD;
  return x;
}
static int unit_of(uint32_t w) {
  uint32_t oc = w & 0x7f;
  if (oc == 0x53) return U_FPU;
  if (oc == 0x33 && (w >> 25) == 1) return (w >> 12 & 7) < 4 ? U_MUL : U_DIV;
  return U_ALU;
}
static uint32_t expected(uint32_t w, uint32_t a, uint32_t b) {
  G->reset();
  G->pc = 0x80000000u;
  G->ww(0x80000000u, w);
  G->gpr[1] = a;
  G->gpr[2] = b;
  G->gpr[3] = 0;
  gold::Step s = G->step();
  if (!G->domain.empty() || s.trap) { fz::finish(fz::DOMAIN_, "domain", "model does not execute %08x", w); }
  return G->gpr[3];
}

// ------------------------------------------------------------- generation
static uint32_t word(gen::Rng &r, int &u) {
  uint32_t regs = 1 << 15 | 2 << 20 | 3 << 7;
  u = (int)r.pick({U_ALU, U_ALU, U_MUL, U_DIV, U_FPU, U_FPU, U_RTL, U_RTL});
  auto R = [&](uint32_t f7, uint32_t f3, uint32_t oc = 0x33) { return f7 << 25 | f3 << 12 | regs | oc; };
  auto I = [&](uint32_t imm, uint32_t f3) { return (imm & 0xfff) << 20 | 1 << 15 | f3 << 12 | 3 << 7 | 0x13; };
  switch (u) {
  case U_MUL: return R(1, r.below(4));
  case U_DIV: return R(1, 4 + r.below(4));
  case U_RTL: return R(r.pick({0, 4, 8}), r.below(5), 0x53);
  case U_FPU: {
    uint32_t rm = r.below(5), rs2 = r.below(2);
    auto U = [&](uint32_t f7, uint32_t f3, uint32_t s2) { return f7 << 25 | s2 << 20 | 1 << 15 | f3 << 12 | 3 << 7 | 0x53; };
    switch (r.below(11)) {
    case 0: return R(0, rm, 0x53);
    case 1: return R(4, rm, 0x53);
    case 2: return R(8, rm, 0x53);
    case 3: case 4: return R(12, rm, 0x53);
    case 5: return U(0x2c, rm, 0);
    case 6: return R(0x10, r.below(3), 0x53);
    case 7: return R(0x14, r.below(2), 0x53);
    case 8: return R(0x50, r.below(3), 0x53);
    case 9: return r.pct(20) ? U(0x70, 1, 0) : U(0x60, rm, rs2);
    default: return U(0x68, rm, rs2);
    }
  }
  default: break;
  }
  if (r.pct(40)) {
    static const uint32_t f[][2] = {{0x30, 0x600}, {0x30, 0x601}, {0x30, 0x602}, {0x30, 0x604}, {0x30, 0x605}};
    switch (r.below(6)) {
    case 0: return I(f[r.below(5)][1], 1);
    case 1: return I(r.pick({0x698, 0x287}), 5);
    case 2: return I((r.pick({0, 0x24, 0x14, 0x34}) << 5) | r.below(32), 1);
    case 3: return I((r.pick({0, 0x20, 0x30, 0x24}) << 5) | r.below(32), 5);
    default: return I(r.pct(50) ? r.pick({0u, 1u, 0x7ffu, 0x800u, 0xfffu}) : r.u32(), r.pick({0, 2, 3, 4, 6, 7}));
    }
  }
  static const uint32_t t[][2] = {{0, 0}, {0x20, 0}, {0, 1}, {0x30, 1}, {0x24, 1}, {0x14, 1}, {0x34, 1}, {5, 1}, {0, 2}, {0x10, 2}, {5, 2}, {0, 3}, {5, 3}, {0, 4}, {0x20, 4}, {0x10, 4},
                                  {5, 4}, {4, 4}, {0, 5}, {0x20, 5}, {0x30, 5}, {0x24, 5}, {5, 5}, {0, 6}, {0x20, 6}, {5, 6}, {0x10, 6}, {0, 7}, {0x20, 7}, {5, 7}, {4, 7}};
  auto &q = t[r.below(sizeof t / sizeof *t)];
  return R(q[0], q[1]);
}
static uint32_t ival(gen::Rng &r) {
  switch (r.below(6)) {
  case 0: return r.pick({0u, 1u, 2u, 0xffffffffu, 0x80000000u, 0x7fffffffu, 0xfffffffeu, 0x80000001u, 31u, 32u, 33u, 0xffffu, 0x10000u, 0xff00ff00u});
  case 1: return 1u << r.below(32);
  case 2: return (1u << r.below(32)) - 1u;
  case 3: return r.u32() >> r.below(32);
  case 4: return (uint32_t)((int32_t)r.u32() >> r.below(32));
  default: return r.u32();
  }
}
static uint32_t fval(gen::Rng &r, uint32_t near) {
  uint32_t s = r.u32() & 0x80000000u, m;
  switch (r.below(6)) {
  case 0: m = 0; break;
  case 1: m = 0x7fffff; break;
  case 2: m = 1u << r.below(23); break;
  case 3: m = (0x7fffffu << r.below(23)) & 0x7fffff; break;
  case 4: m = (1u << r.below(23)) - 1; break;
  default: m = r.u32() & 0x7fffff;
  }
  uint32_t e;
  switch (r.below(8)) {
  case 0: e = 0; break;
  case 1: e = r.pick({1, 2, 24, 25, 126, 127, 128, 150, 151, 253, 254}); break;
  case 2: e = 255; break;
  case 3: case 4: { // close to the other operand
    int x = (int)(near >> 23 & 255) + (int)r.below(57) - 28;
    e = (uint32_t)std::min(254, std::max(0, x));
    if (r.pct(30)) m = near & 0x7fffff;
    if (r.pct(15)) m ^= 1u << r.below(23);
    break;
  }
  case 5: { // product close to the limits of the range
    int x = (int)r.pick({1, 0, 254, 255, 127}) + 127 - (int)(near >> 23 & 255) + (int)r.below(5) - 2 - (int)(r.pct(30) ? r.below(26) : 0);
    e = (uint32_t)std::min(254, std::max(0, x));
    break;
  }
  default: e = r.below(256);
  }
  return s | e << 23 | m;
}

static std::string make(const std::string &prop, uint64_t seed, uint64_t idx, std::string *pn) {
  gen::Rng r(fz::case_seed(prop, seed, idx));
  std::string o = "v1\n";
  char b[120];
  *pn = "ops";
  if (prop == "F01") {
    for (int i = 0; i < 120; i++) {
      int u;
      uint32_t w = word(r, u);
      bool fl = (w & 0x7f) == 0x53 && (w >> 25) != 0x68;
      uint32_t x = fl ? fval(r, 127u << 23) : ival(r), y = fl ? fval(r, x) : ival(r);
      if (fl && r.pct(50)) std::swap(x, y);
      if (!fl && r.pct(8)) y = x;
      snprintf(b, sizeof b, "%d %08x %08x %08x\n", u, w, x, y);
      o += b;
    }
    return o;
  }
  // F02: unit, then one line per cycle
  static const int us[] = {U_MUL, U_DIV, U_FPU};
  int u = us[r.below(3)];
  uint32_t flush = r.pick({0, 3, 10, 25}), clear = r.pick({5, 20, 50}), en = r.pick({30, 70, 100}), con = r.pick({20, 60, 100});
  snprintf(b, sizeof b, "u %d\n", u);
  o += b;
  int n = 60 + (int)r.below(200);
  for (int i = 0; i < n; i++) {
    int q;
    uint32_t w;
    do w = word(r, q); while (q != u);
    uint32_t mask = r.u32() & r.u32() & (r.pct(40) ? r.u32() : ~0u);
    snprintf(b, sizeof b, "t %d %08x %08x %08x %08x %d %08x %08x %d\n", r.pct(en), w, u == U_FPU ? fval(r, 127u << 23) : ival(r), u == U_FPU ? fval(r, 127u << 23) : ival(r), mask,
             r.pct(flush) ? (r.pct(20) ? 2 : 1) : 0, 1u << r.below(BR_MASK_WIDTH), r.pct(clear) ? 1u << r.below(BR_MASK_WIDTH) : 0, r.pct(con));
    o += b;
  }
  return o;
}

// ------------------------------------------------------------- oracles
static void run_results(const fz::Lines &l) {
  std::map<int, AbstractFU *> fu;
  uint64_t kinds = 0;
  for (size_t i = 1; i < l.size(); i++) {
    int u;
    unsigned w, a, b;
    if (sscanf(l[i].c_str(), "%d %x %x %x", &u, &w, &a, &b) != 4) continue;
    if (u != U_RTL && u != unit_of(w)) continue;
    if (!fu[u]) fu[u] = unit(u);
    AbstractFU *f = fu[u];
    uint32_t want = expected(w, a, b);
    if (fz::done()) return;
    bool got = false;
    for (int t = 0; t < 200 && !got; t++) {
      f->in = AbstractFU::FuInput();
      f->comb_begin();
      if (t == 0) {
        f->in.en = 1;
        f->in.inst = operation(w, a, b);
        f->in.inst.rob_idx = (uint32_t)i & 7;
        f->in.inst.dest_preg = (uint32_t)i & 31;
      }
      f->comb_ctrl();
      f->comb_issue();
      if (f->out.complete) {
        got = true;
        if ((uint32_t)f->out.inst.result != want) return FZ_BAD("result", "%s: %08x with operands %08x, %08x gives %08x, expected %08x", unit_name[u], w, a, b, (uint32_t)f->out.inst.result, want);
        if (f->out.inst.rob_idx != ((uint32_t)i & 7) || f->out.inst.dest_preg != ((uint32_t)i & 31)) return FZ_BAD("tag", "%s: result of %08x delivered for another instruction", unit_name[u], w);
        f->in.consume = 1;
      }
      f->comb_consume();
      f->seq();
      sim_time++;
    }
    if (!got) return FZ_BAD("no-result", "%s: %08x with operands %08x, %08x never completes", unit_name[u], w, a, b);
    fz::R->work++;
    fz::R->cnt[u]++;
    kinds |= 1ull << u;
  }
  fz::R->nontrivial = __builtin_popcountll(kinds) > 3;
}

static void run_delivery(const fz::Lines &l) {
  struct Op { uint32_t id, want, mask; };
  std::deque<Op> live; // accepted, not squashed, not delivered: oldest first
  int u = -1;
  uint32_t id = 0, delivered = 0, squashed = 0, cleared = 0;
  int idle = 0;
  AbstractFU *f = nullptr;
  const uint32_t all = (uint32_t)AbstractFU::FLUSH_ALL_MASK;
  auto cycle = [&](int en, unsigned w, unsigned a, unsigned b, unsigned mask, int flush, unsigned fm, unsigned cm, int con) {
    f->in = AbstractFU::FuInput();
    f->comb_begin();
    bool ready = f->out.ready;
    fm &= all;
    cm &= all;
    if (fm == all) fm = 1;
    if (flush) {
      f->in.flush = 1;
      f->in.flush_mask = flush == 2 ? all : fm;
      for (size_t i = 0; i < live.size();)
        if (flush == 2 || (live[i].mask & fm)) { live.erase(live.begin() + (long)i); squashed++; } else i++;
    }
    f->in.clear_mask = cm;
    for (auto &o : live) { if (o.mask & cm) cleared++; o.mask &= ~cm; }
    f->comb_ctrl();
    mask &= all & ~cm;
    if (flush == 1) mask &= ~fm; // the issue stage does not issue squashed work
    if (en && ready && flush != 2 && (w & 0x7f)) {
      uint32_t want = expected(w, a, b);
      if (fz::done()) return;
      f->in.en = 1;
      f->in.inst = operation(w, a, b);
      f->in.inst.br_mask = mask;
      f->in.inst.imm = u == U_FPU ? f->in.inst.imm : 0;
      f->in.inst.pc = ++id;
      live.push_back({id, want, mask});
    }
    f->comb_issue();
    f->in.consume = 0;
    if (f->out.complete) {
      const ExuInst &x = f->out.inst;
      if (live.empty() || (uint32_t)x.pc != live.front().id) {
        FZ_BAD("delivery", "%s delivers operation %u, expected %d", unit_name[u], (uint32_t)x.pc, live.empty() ? -1 : (int)live.front().id);
        return;
      }
      if ((uint32_t)x.result != live.front().want) { FZ_BAD("result", "%s: operation %u gives %08x, expected %08x", unit_name[u], (uint32_t)x.pc, (uint32_t)x.result, live.front().want); return; }
      if ((uint32_t)x.br_mask != live.front().mask) { FZ_BAD("mask", "%s: operation %u depends on branches %x, expected %x", unit_name[u], (uint32_t)x.pc, (uint32_t)x.br_mask, live.front().mask); return; }
      idle = 0;
      if (con) {
        f->in.consume = 1;
        live.pop_front();
        delivered++;
      }
    } else if (live.empty())
      idle = 0;
    else if (++idle > 150) { FZ_BAD("no-result", "%s: operation %u never completes", unit_name[u], live.front().id); return; }
    f->comb_consume();
    f->seq();
    sim_time++;
    if (live.empty()) { // an empty unit accepts work
      f->in = AbstractFU::FuInput();
      f->comb_begin();
      if (!f->out.ready) { FZ_BAD("stuck", "%s is empty but does not accept work", unit_name[u]); return; }
    }
  };
  for (size_t i = 1; i < l.size() && !fz::done(); i++) {
    if (sscanf(l[i].c_str(), "u %d", &u) == 1) {
      if (u != U_MUL && u != U_DIV && u != U_FPU) return;
      f = unit(u);
      continue;
    }
    int en, flush, con;
    unsigned w, a, b, m, fm, cm;
    if (!f || sscanf(l[i].c_str(), "t %d %x %x %x %x %d %x %x %d", &en, &w, &a, &b, &m, &flush, &fm, &cm, &con) != 9) continue;
    if (unit_of(w) != u) continue;
    cycle(en, w, a, b, m, flush, fm, cm, con);
    fz::R->work++;
  }
  for (int i = 0; i < 2000 && f && !live.empty() && !fz::done(); i++) cycle(0, 0, 0, 0, 0, 0, 0, 0, 1);
  if (!fz::done() && !live.empty()) FZ_BAD("lost", "%zu operations never delivered", live.size());
  fz::R->cnt[0] = delivered;
  fz::R->cnt[1] = squashed;
  fz::R->cnt[2] = cleared;
  fz::R->nontrivial = delivered > 5 && cleared > 2;
}

int main(int argc, char **argv) {
  G = new gold::Golden();
  G->reset_mem();
  bool f2 = false;
  for (int i = 1; i < argc; i++) f2 |= !strcmp(argv[i], "F02");
  fz::api.counters = f2 ? std::vector<std::string>{"delivered", "squashed", "mask_bits_cleared"} : std::vector<std::string>{"alu", "mul", "div", "fpu", "gate_level_fpu"};
  fz::api.make = make;
  fz::api.run = [](const std::string &prop, const std::string &t) {
    auto l = fz::split(t);
    if (prop == "F02") run_delivery(l); else run_results(l);
  };
  fz::api.simpler = [](const std::string &l) -> std::string { return l[0] == 'u' ? l : ""; };
  return fz::fuzz_main(argc, argv);
}
