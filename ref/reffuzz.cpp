// Lock-step fuzzing of the repository's reference interpreter (diff/ref.cpp)
// against the independent model in golden/.
#include "RISCV.h"
#include "ref.h"
#include "../common/driver.h"
#include "../golden/golden.h"
#include "../sys/profiles.h"
#include <algorithm>
#include <iostream>
#include <set>

long long sim_time = 0;
static std::vector<uint32_t> oracle_timer;
void push_oracle_timer(uint32_t v) { oracle_timer.push_back(v); }

static gold::Golden *G;
static RefCpu ref;

// difftest CSR index order of the interpreter's register file
static void golden_mode() {
  G->interp = true;
  G->fused_fp = true;
  G->track_stale = false;
  G->hw_mip = gold::B_MTIP;
  G->sc_force_ok = true;
}
static void load(const gen::Case &c, bool dut) {
  for (auto *v : {&c.code, &c.data})
    for (auto &w : *v) {
      G->ww(w.first, w.second);
      if (dut) ref.store_word(w.first, w.second);
    }
}
static bool mtip() { return (uint64_t)sim_time + G->timer_off >= G->timer_cmp; }

static bool ecall_first = true;
// what the interpreter does with one instruction slot
static gold::Step model_step() {
  G->now = (uint64_t)sim_time;
  G->mip_extra = mtip() ? gold::B_MTIP : 0;
  std::string d = G->domain;
  gold::Cov c = G->cov;
  uint32_t pa;
  bool ok = !(G->pc & 3) && G->translate(G->pc, 0, pa);
  G->domain = d;
  G->cov = c;
  if (ok && G->rw(pa) != gen::EBREAK) {
    auto v = G->takeable(G->mip_extra);
    if (!v.empty()) {
      // an environment call trapping to machine mode may go before a supervisor interrupt
      bool sup = v[0].code == 1 || v[0].code == 5 || v[0].code == 9;
      if (!(sup && G->rw(pa) == 0x73u && ecall_first)) return G->take_interrupt(v[0]);
    }
  }
  return G->step();
}

// ---------------------------------------------------------------- soup programs
// Code is invented at the program counter as the model executes, so every
// instruction is reached with operands the generator has seen.
static uint32_t special(gen::Rng &r) {
  switch (r.below(9)) {
  case 0: return 0;
  case 1: return ~0u;
  case 2: return 0x80000000u;
  case 3: return 0x7fffffffu;
  case 4: return r.below(70);
  case 5: return 1u << r.below(32);
  case 6: return (1u << r.below(32)) - 1;
  default: return r.u32();
  }
}
static uint32_t fpspecial(gen::Rng &r) {
  uint32_t s = r.below(2) << 31;
  switch (r.below(14)) {
  case 0: return s | 0x7f800000u;
  case 1: return s | 0x7fc00000u | (r.u32() & 0x3fffffu);
  case 2: return s | 0x7f800000u | (1 + r.below(0x3fffff));
  case 3: return s | (r.u32() & 0x7fffffu);
  case 4: return s;
  case 5: return s | 0x3f800000u;
  case 6: return s | (r.range(125, 131) << 23) | (r.u32() & 0x7fffffu);
  case 7: return s | (r.range(148, 160) << 23) | (r.u32() & 0x7fffffu); // near integer limits
  case 8: return s | (r.range(1, 4) << 23) | (r.u32() & 0x7fffffu);
  case 9: return s | (r.range(250, 254) << 23) | (r.u32() & 0x7fffffu);
  case 10: return s | (r.range(120, 135) << 23) | (r.pick({0u, 1u, 0x7fffffu, 0x400000u, 0x400001u, 0x3fffffu}));
  case 11: return s | 0x00800000u | r.below(3);
  default: return r.u32();
  }
}
static const uint32_t OPK[] = {0x000, 0x100, 0x001, 0x002, 0x003, 0x004, 0x005, 0x105, 0x006, 0x007, 0x008, 0x009, 0x00a, 0x00b, 0x00c, 0x00d, 0x00e, 0x00f,
                               0x082, 0x084, 0x086, 0x104, 0x106, 0x107, 0x029, 0x02b, 0x02a, 0x02c, 0x02d, 0x02e, 0x02f, 0x181, 0x185, 0x121, 0x125, 0x1a1, 0x0a1, 0x024, 0x027};
static uint32_t opimm(gen::Rng &r, uint32_t rd, uint32_t rs) {
  using namespace gen;
  if (r.pct(45)) { static const uint32_t f[] = {0, 2, 3, 4, 6, 7}; return eI(0x13, rd, f[r.below(6)], rs, (int32_t)(r.pct(30) ? r.pick({0, 1, -1, 2047, -2048}) : (int32_t)r.below(4096) - 2048)); }
  uint32_t sh = r.pct(20) ? 0 : r.below(32);
  switch (r.below(14)) {
  case 0: return eR(0x13, rd, 1, rs, sh, 0);
  case 1: return eR(0x13, rd, 5, rs, sh, 0);
  case 2: return eR(0x13, rd, 5, rs, sh, 0x20);
  case 3: return eR(0x13, rd, 5, rs, sh, 0x30);
  case 4: return eR(0x13, rd, 5, rs, sh, 0x24);
  case 5: return eR(0x13, rd, 1, rs, sh, 0x14);
  case 6: return eR(0x13, rd, 1, rs, sh, 0x24);
  case 7: return eR(0x13, rd, 1, rs, sh, 0x34);
  case 8: return eR(0x13, rd, 5, rs, 24, 0x34);
  case 9: return eR(0x13, rd, 5, rs, 7, 0x14);
  default: return eR(0x13, rd, 1, rs, r.pick({0u, 1u, 2u, 4u, 5u}), 0x30);
  }
}
static uint32_t fpop(gen::Rng &r, uint32_t rd, uint32_t a, uint32_t b) {
  using namespace gen;
  uint32_t rm = r.pick({0u, 1u, 2u, 3u, 4u, 7u});
  switch (r.below(20)) {
  case 0: case 1: return eR(0x53, rd, rm, a, b, 0x00);
  case 2: case 3: return eR(0x53, rd, rm, a, b, 0x04);
  case 4: case 5: return eR(0x53, rd, rm, a, b, 0x08);
  case 6: case 7: return eR(0x53, rd, rm, a, b, 0x0c);
  case 8: return eR(0x53, rd, rm, a, 0, 0x2c);
  case 9: return eR(0x53, rd, r.below(3), a, b, 0x10);
  case 10: return eR(0x53, rd, r.below(2), a, b, 0x14);
  case 11: case 12: return eR(0x53, rd, r.below(3), a, b, 0x50);
  case 13: case 14: return eR(0x53, rd, rm, a, r.below(2), 0x60);
  case 15: return eR(0x53, rd, rm, a, r.below(2), 0x68);
  case 16: return eR(0x53, rd, 1, a, 0, 0x70);
  default: return eR(r.pick({0x43u, 0x47u, 0x4bu, 0x4fu}), rd, rm, a, b, (r.range(0, 31) << 2));
  }
}
static gen::Case soup(uint64_t s, char kind) {
  using namespace gen;
  Rng r(s);
  Case c;
  std::map<uint32_t, uint32_t> code;
  std::vector<uint32_t> queue; // words still to be placed
  G->reset_mem();
  G->reset();
  golden_mode();
  sim_time = 0;
  uint32_t n = r.range(150, 500);
  static const uint32_t win[] = {0x80100000u, 0x80100000u, 0x80100000u, 0x80101ff0u, 0xbffffff0u, 0x00002000u, 0xc0000000u, 0xfffffff0u, 0x7ffffff0u};
  // device registers and their surroundings
  static const uint32_t dev[] = {0x10000000u, 0x10000000u, 0x10000040u, 0x100000f0u, 0x0c000000u, 0x0c000100u, 0x0c201000u, 0x0c201000u, 0x0c20fff0u,
                                 0x1fb00000u, 0x1fb00ff0u, 0x1fd0e000u, 0x1fd0e000u, 0x1fd0e000u, 0x1fd0e010u, 0x1fd0e0f0u, 0x1fd0f000u, 0x1fd0f000u, 0x1fd0f000u, 0x1fd0f010u};
  uint32_t nd = kind == 'm' || kind == 'd' ? r.range(10, 60) : 0;
  for (uint32_t i = 0; i < nd; i++) {
    uint32_t a = win[r.below(9)] + r.below(4) * 4;
    c.data.push_back({a, r.u32()});
    G->ww(a, c.data.back().second);
  }
  uint32_t k = 0;
  int reroll = 0;
  while (k < n) {
    uint32_t pc = G->pc;
    bool fresh = false;
    if (gold::Golden::is_ram(pc) && !code.count(pc)) {
      fresh = true;
      uint32_t w = 0;
      if (!queue.empty()) { w = queue.front(); queue.erase(queue.begin()); }
      else {
        uint32_t rd = r.below(32), a = r.below(32), b = r.below(32);
        if (r.pct(10)) b = a;
        uint32_t what = r.below(100);
        bool setreg = what < (kind == 'f' ? 40u : 18u);
        if (setreg) {
          uint32_t v = kind == 'f' && r.pct(85) ? fpspecial(r) : special(r);
          if (kind == 'd' && r.pct(50))
            v = r.pct(50) ? win[r.below(5)] + r.below(16) : r.pct(50) ? r.below(4) : (uint32_t)sim_time + r.below(100);
          uint32_t reg = kind == 'f' ? 1 + r.below(12) : 1 + r.below(31);
          int32_t lo = (int32_t)(v << 20) >> 20;
          w = eU(0x37, reg, v - (uint32_t)lo);
          if (lo) queue.push_back(eI(0x13, reg, 0, reg, lo));
        } else if (kind == 'f' && what < 95) {
          w = fpop(r, r.below(16), r.below(14), r.below(14));
        } else if (kind == 'd' && what < 23) {
          w = eCsr(2, rd, r.pick({0x344u, 0x144u, 0xc01u, 0xc81u}), 0);
        } else if ((kind == 'm' || kind == 'd') && what < 85) {
          // an access: a base register near a window, else set one up
          uint32_t base = 0;
          int32_t im = 0;
          uint32_t f3, sz, isld = r.pct(50), amo = r.pct(25);
          f3 = isld ? r.pick({0u, 1u, 2u, 4u, 5u}) : r.below(3);
          if (amo) f3 = 2;
          sz = 1u << (f3 & 3);
          uint32_t tgt = win[r.below(9)] + r.below(16);
          if (kind == 'd') {
            if (r.pct(90)) tgt = dev[r.below(sizeof dev / 4)] + r.below(16);
            if (tgt < 0x20000000u) {
              if (amo) isld = r.pct(50);
              amo = 0;
              f3 = r.pct(60) || tgt >= 0x1fd0e000u ? 2 : isld ? r.pick({0u, 1u, 4u, 5u}) : r.below(2);
              sz = 1u << (f3 & 3);
            }
          }
          tgt &= ~(sz - 1);
          bool found = false;
          for (int t = 0; t < 6 && !found; t++) {
            base = r.below(32);
            int64_t d = (int64_t)(int32_t)(tgt - G->gpr[base]);
            if (amo ? d == 0 : (d >= -2048 && d < 2048)) { im = (int32_t)d; found = true; }
          }
          if (!found) {
            base = 1 + r.below(31);
            im = amo ? 0 : (int32_t)(r.below(4096)) - 2048;
            uint32_t v = tgt - (uint32_t)im;
            int32_t lo = (int32_t)(v << 20) >> 20;
            w = eU(0x37, base, v - (uint32_t)lo);
            if (lo) queue.push_back(eI(0x13, base, 0, base, lo));
          }
          uint32_t op;
          if (amo) {
            uint32_t f5 = r.pick({0u, 1u, 2u, 2u, 3u, 3u, 3u, 4u, 8u, 12u, 16u, 20u, 24u, 28u});
            op = eAmo(f5, rd, base, f5 == 2 ? 0 : b, r.below(4));
          } else if (isld) op = eI(0x03, rd, f3, base, im);
          else op = eS(f3, base, b, im);
          if (found) w = op; else queue.push_back(op);
        } else if (what < 30) {
          int32_t off = r.pct(88) ? (int32_t)r.range(1, 12) * 4 : ((int32_t)r.below(33) - 16) * 4;
          w = eB(r.pick({0u, 1u, 4u, 5u, 6u, 7u}), a, b, off);
        } else if (what < 33) {
          w = eJ(rd, r.pct(80) ? (int32_t)r.range(1, 120) * 4 : ((int32_t)r.below(193) - 96) * 4);
        } else if (what < 36) {
          int64_t d = (int64_t)(0x80000000u + r.below(0x1000) * 4) - G->gpr[a];
          if (d < -2048 || d > 2047) w = eU(0x17, rd, r.u32() & 0xfffff000u);
          else w = eI(0x67, rd, 0, a, (int32_t)d | (int32_t)r.below(2));
        } else if (what < 40) w = eU(r.pct(50) ? 0x37 : 0x17, rd, r.u32() & 0xfffff000u);
        else if (what < 70) w = opimm(r, rd, a);
        else { uint32_t q = OPK[r.below(sizeof OPK / 4)]; w = eR(0x33, rd, q & 7, a, b, q >> 3); }
      }
      code[pc] = w;
      G->ww(pc, w);
    }
    uint32_t save[32];
    memcpy(save, G->gpr, sizeof save);
    uint32_t spc = G->pc;
    auto sd = G->dirty_words;
    gold::Step st = model_step();
    bool off = gold::Golden::is_ram(G->pc) && G->pc >= 0x80000000u && G->pc < 0x80010000u;
    if (!G->domain.empty() || (!off && gold::Golden::is_ram(spc))) {
      // outside the subset or the code area: a different instruction here
      G->domain.clear();
      memcpy(G->gpr, save, sizeof save);
      G->pc = spc;
      code[spc] = gen::NOP;
      G->ww(spc, gen::NOP);
      if (++reroll > 400 || !fresh) break;
      continue;
    }
    if (st.store && gold::Golden::in(st.st_addr, 0x80000000u, 0x10000u)) break; // wrote into its own code
    sim_time++;
    k++;
  }
  code[G->pc] = gen::EBREAK;
  for (auto &w : code) c.code.push_back(w);
  c.p["maxcommit"] = (int64_t)n + 20;
  return c;
}

// ---------------------------------------------------------------- case
static bool dry(gen::Case &c) {
  G->reset_mem();
  G->reset();
  golden_mode();
  load(c, false);
  sim_time = 0;
  int64_t n = c.get("maxcommit", 900);
  for (int64_t i = 0; i < n; i++) {
    gold::Step s = model_step();
    sim_time++;
    if (!G->domain.empty()) { if (getenv("FT")) fprintf(stderr, "%s\n", G->domain.c_str()); return false; }
    if (s.ended) break;
  }
  return true;
}

static std::string make(const std::string &prop, uint64_t seed, uint64_t idx, std::string *pn) {
  for (uint64_t att = 0;; att++) {
    uint64_t s = fz::case_seed(prop, seed, idx, att);
    char k = 0;
    uint32_t pick = (uint32_t)(s >> 40) % 100;
    if (prop == "R01" && pick < 80) k = 'i';
    if (prop == "R02" && pick < 70) k = 'm';
    if (prop == "R05") k = 'f';
    if (prop == "R06" && pick < 45) k = 'd';
    if (prop == "R07" && pick < 50) k = pick < 5 ? 'd' : pick < 20 ? 'i' : pick < 35 ? 'm' : 'f';
    gen::Case c;
    if (k) { c = soup(s, k); *pn = std::string("soup-") + k; }
    else {
      const gen::Profile &pf = prof::choose(prop, s);
      *pn = pf.name;
      c = gen::make(s, pf);
      for (const char *q : {"ready", "lmin", "lmax", "tail", "tmax", "reorder", "maxout", "mp_cond", "mp_ind", "bubble", "short", "cstall", "seed"}) c.p.erase(q);
    }
    if (dry(c) || att > 60) return c.text();
  }
}

enum { K_INSN, K_TRAP, K_IRQ, K_PF, K_LD, K_ST, K_AMO, K_SCOK, K_FP, K_CSR, K_MMIO, K_BR, K_WALK, K_SUPER, K_PRIV, K_UNSPEC };

static void run(const std::string &prop, const std::string &text) {
  gen::Case c;
  {
    std::istringstream is(text);
    std::string l, t;
    std::getline(is, l);
    while (std::getline(is, l)) {
      std::istringstream ls(l);
      ls >> t;
      if (t == "p") { std::string k; long long v; ls >> k >> v; c.p[k] = v; }
      else if (t == "c" || t == "d") { std::string a, v; ls >> a >> v; (t == "c" ? c.code : c.data).push_back({(uint32_t)std::stoul(a, nullptr, 16), (uint32_t)std::stoul(v, nullptr, 16)}); }
    }
  }
  G->reset_mem();
  G->reset();
  golden_mode();
  sim_time = 0;
  ref.init(0);
  load(c, true);
  ref.ref_only = true;
  ref.uart_print = true;
  ref.sim_end = false;
  std::ostringstream uart;
  std::cout.rdbuf(uart.rdbuf());
  uint64_t maxc = (uint64_t)c.get("maxcommit", 900);
  gold::Step s;
  std::vector<uint32_t> want_timer;
  for (uint64_t k = 0; k < maxc; k++) {
    uint32_t pc = G->pc;
    uint32_t I = 0, pa;
    {
      std::string d = G->domain;
      gold::Cov cv = G->cov;
      if (!(G->pc & 3) && G->translate(G->pc, 0, pa)) I = G->rw(pa);
      G->domain = d;
      G->cov = cv;
    }
    if (uint32_t o = I & 0x7f; o == 0x03 || o == 0x23 || o == 0x2f) { // misaligned data is outside the subset
      int32_t im = o == 0x03 ? (int32_t)I >> 20 : o == 0x23 ? ((int32_t)I >> 25 << 5) | (int32_t)(I >> 7 & 31) : 0;
      if ((G->gpr[I >> 15 & 31] + (uint32_t)im) & ((1u << (I >> 12 & 3)) - 1)) { fz::finish(fz::DOMAIN_, "domain", "misaligned access at %08x", pc); return; }
    }
    // an SC whose outcome the architecture leaves open follows the interpreter
    ref.exec();
    if ((I & 0x7f) == 0x2f && (I >> 27) == 3) {
      uint32_t rd = I >> 7 & 31;
      G->sc_force_ok = rd ? ref.state.gpr[rd] == 0 : ref.state.store;
    }
    ecall_first = ref.privilege == 3;
    s = model_step();
    if (!G->domain.empty()) { fz::finish(fz::DOMAIN_, "domain", "%s at %08x", G->domain.c_str(), pc); return; }
    fz::R->work = k + 1;
    char w[120];
    snprintf(w, sizeof w, "step %llu pc=%08x inst=%08x: ", (unsigned long long)k, pc, s.inst);
    if (s.mmio_load && (s.ld_addr & ~4u) == gold::TIMER) want_timer.push_back((uint32_t)((G->now + G->timer_off) >> ((s.ld_addr & 4) * 8)));
    for (int i = 0; i < 32; i++)
      if (ref.state.gpr[i] != G->gpr[i]) { FZ_BAD(s.load ? "load-value" : "gpr", "%sx%d=%08x, expected %08x", w, i, ref.state.gpr[i], G->gpr[i]); return; }
    for (int i = 0; i < gold::I_NCSR; i++) {
      uint32_t a = ref.state.csr[i], b = G->csr_val(i);
      if (i == gold::I_MIP) { a &= ~G->hw_mip; b &= ~G->hw_mip; }
      if (a != b) { FZ_BAD("csr", "%s%s=%08x, expected %08x", w, gold::kCsrName[i], a, b); return; }
    }
    if (ref.sim_end != s.ended) { FZ_BAD("end", "%sprogram end reported=%d, expected %d", w, ref.sim_end, s.ended); return; }
    uint32_t npc = s.next_pc;
    if (ref.state.pc != npc) { FZ_BAD("next-pc", "%snext pc %08x, expected %08x", w, ref.state.pc, npc); return; }
    if (!s.ended && ref.privilege != G->priv) { FZ_BAD("privilege", "%sprivilege %d, expected %d", w, ref.privilege, G->priv); return; }
    if (ref.state.store != s.store) { FZ_BAD("store", "%sstore reported=%d, expected %d", w, ref.state.store, s.store); return; }
    if (s.store) {
      uint32_t d = s.st_data << ((s.st_addr & 3) * 8);
      if (ref.state.store_addr != s.st_addr || ref.state.store_data != d) {
        FZ_BAD("store", "%sstore [%08x]=%08x, expected [%08x]=%08x", w, ref.state.store_addr, ref.state.store_data, s.st_addr, d);
        return;
      }
    }
    if (ref.page_fault_inst != s.pf_inst || ref.page_fault_load != s.pf_load || ref.page_fault_store != s.pf_store) {
      FZ_BAD("page-fault", "%spage faults %d%d%d, expected %d%d%d", w, ref.page_fault_inst, ref.page_fault_load, ref.page_fault_store, s.pf_inst, s.pf_load, s.pf_store);
      return;
    }
    // the step report the branch oracle and the checker use
    uint32_t op = s.inst & 0x7f;
    bool done = !s.trap && !s.ended;
    bool br = done && (op == 0x63 || op == 0x6f || op == 0x67);
    bool taken = br && (op != 0x63 || s.next_pc != s.pc + 4);
    bool loop4 = br && op == 0x63 && s.next_pc == s.pc + 4; // taken to the next instruction looks not taken
    if (ref.is_br != br || (!loop4 && ref.br_taken != taken)) { FZ_BAD("report-branch", "%sbranch/taken reported %d%d, expected %d%d", w, ref.is_br, ref.br_taken, br, taken); return; }
    bool xret = done && (s.inst == gen::MRET || s.inst == gen::SRET);
    if (ref.is_exception != (s.trap || xret)) { FZ_BAD("report-trap", "%strap reported %d, expected %d", w, ref.is_exception, s.trap || xret); return; }
    bool csr = done && op == 0x73 && !xret;
    if (!s.trap && !s.ended && ref.is_csr != csr) { FZ_BAD("report-csr", "%scsr access reported %d, expected %d", w, ref.is_csr, csr); return; }
    if (ref.is_mmio_load != s.mmio_load || ref.is_mmio_store != s.mmio_store) {
      FZ_BAD("report-device", "%sdevice load/store reported %d%d, expected %d%d", w, ref.is_mmio_load, ref.is_mmio_store, s.mmio_load, s.mmio_store);
      return;
    }
    if (s.store) {
      uint32_t got = ref.load_word(s.st_addr);
      bool timer = gold::Golden::in(s.st_addr, gold::TIMER, 16);
      if (!timer && got != G->rw(s.st_addr)) { FZ_BAD("memory", "%smemory word at %08x is %08x, expected %08x", w, s.st_addr & ~3u, got, G->rw(s.st_addr)); return; }
    }
    fz::R->cnt[K_UNSPEC] += s.sc_unspec;
    sim_time++;
    if (s.ended) break;
  }
  // nothing else in memory may have changed
  std::set<uint32_t> touched;
  for (auto &q : c.data) touched.insert(q.first);
  for (auto &q : c.code) touched.insert(q.first);
  for (uint32_t a : G->dirty_words) for (int o = -8; o <= 8; o += 4) touched.insert(a + (uint32_t)o);
  for (auto &q : G->io) if (!gold::Golden::in(q.first, gold::TIMER, 16)) touched.insert(q.first);
  for (auto &q : ref.io_words) touched.insert(q.first);
  for (uint32_t a : touched)
    if (ref.load_word(a) != G->rw(a)) { FZ_BAD("memory", "final memory word at %08x is %08x, expected %08x", a, ref.load_word(a), G->rw(a)); return; }
  if (uart.str() != G->uart_out) { FZ_BAD("uart", "console output \"%s\", expected \"%s\"", uart.str().c_str(), G->uart_out.c_str()); return; }
  if (oracle_timer != want_timer) { FZ_BAD("report-timer", "%zu timer samples reported, expected %zu", oracle_timer.size(), want_timer.size()); return; }
  auto &v = G->cov;
  uint64_t *n = fz::R->cnt;
  n[K_INSN] = fz::R->work; n[K_TRAP] = v.trap; n[K_IRQ] = v.irq; n[K_PF] = v.pf; n[K_LD] = v.ld; n[K_ST] = v.st; n[K_AMO] = v.amo; n[K_SCOK] = v.sc_ok;
  n[K_FP] = v.fp; n[K_CSR] = v.csr; n[K_MMIO] = v.mmio; n[K_BR] = v.br; n[K_WALK] = v.walk; n[K_SUPER] = v.superp; n[K_PRIV] = v.priv_s + v.priv_u;
  bool nt = fz::R->work >= 40;
  if (prop == "R01") nt = nt && v.alu > 30;
  else if (prop == "R02") nt = nt && v.ld + v.st + v.amo > 15;
  else if (prop == "R03") nt = nt && (v.trap > 1 || v.irq || v.csr > 12);
  else if (prop == "R04") nt = nt && v.walk > 60 && (v.pf || v.sfence > 1);
  else if (prop == "R05") nt = nt && v.fp > 20;
  else if (prop == "R06") nt = nt && (v.mmio > 2 || v.irq);
  fz::R->nontrivial = nt;
}

int main(int argc, char **argv) {
  G = new gold::Golden();
  fz::api.counters = {"instructions", "traps", "interrupts", "page_faults", "loads", "stores", "atomics", "sc_success", "fp", "csr", "device", "branches", "walks", "superpages", "below_machine", "sc_unspecified"};
  fz::api.make = make;
  fz::api.run = run;
  fz::api.simpler = [](const std::string &l) -> std::string {
    if (l[0] == 'c') return l.substr(0, 11) + "00000013";
    if (l[0] == 'p') return l;
    return "";
  };
  return fz::fuzz_main(argc, argv);
}
