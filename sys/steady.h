// Programs that repeat the same work: what a pass may cost once everything is warm.
// All expectations are computed from the instructions the model executed.
#pragma once
#include <set>
namespace vps {
enum { MULS, LONG, STORES, BRANCHES, TAKEN, OTHER, SYSTEM, FORWARDED, USES }; // LONG: cycles of divide and FP
struct Pass {
  long long cycle;
  uint64_t insts, mispred, reads, writes;
  uint64_t chain, links; // longest chain of dependent operations so far: cycles, operations
  uint64_t use[USES];
};
static std::vector<Pass> passes;
static uint32_t pass_mark;
static const uint64_t FORWARD = 4; // a store and the load of its word
static struct {
  uint64_t insts, ready[32], links[32], use[USES];
  std::map<uint32_t, std::set<uint32_t>> next;   // where each control transfer went, second half only
  std::map<uint32_t, std::vector<bool>> ways;    // taken or not, for each branch
  std::map<uint32_t, std::pair<uint64_t, uint64_t>> stored; // ready, links of the word stored
  std::set<uint32_t> code, data;                 // lines touched
} flow;

static void pass_commit(const gold::Step &s) {
  if (!pass_mark) return;
  uint32_t op = s.inst & 0x7f, f3 = s.inst >> 12 & 7, f7 = s.inst >> 25, rs1 = s.inst >> 15 & 31, rs2 = s.inst >> 20 & 31, rd = s.inst >> 7 & 31;
  uint64_t lat = 1;
  bool r1 = true, r2 = false, w = true;
  switch (op) {
  case 0x13: break;
  case 0x37: case 0x17: r1 = false; break;
  case 0x33:
    r2 = true;
    if (f7 == 1 && f3 < 4) { lat = MUL_MAX_LATENCY; flow.use[MULS]++; }
    else if (f7 == 1) { lat = DIV_MAX_LATENCY + 1; flow.use[LONG] += lat; }
    break;
  case 0x53: {
    uint64_t l = f7 == 8 ? 3 : f7 == 12 ? 10 : (f7 & ~4u) == 0 ? 5 : 0;
    if (l) { lat = l + 1; flow.use[LONG] += lat; } else { flow.use[OTHER]++; }
    r2 = true;
    break;
  }
  case 0x03: lat = 4; break;
  case 0x23: w = false; flow.use[STORES]++; break;
  case 0x63: w = false; flow.use[BRANCHES]++; break;
  case 0x6f: r1 = false; flow.use[BRANCHES]++; break;
  case 0x67: flow.use[BRANCHES]++; break;
  case 0x73: r1 = false; flow.use[SYSTEM]++; break;
  default: flow.use[OTHER]++;
  }
  if (s.trap || s.interrupt || s.mmio_load || s.mmio_store) { flow.use[OTHER]++; }
  if (w && rd) {
    uint32_t from = r1 ? rs1 : 0;
    if (r2 && flow.ready[rs2] > flow.ready[from]) from = rs2;
    flow.ready[rd] = flow.ready[from] + lat;
    flow.links[rd] = flow.links[from] + 1;
    auto st = s.load ? flow.stored.find(s.ld_addr) : flow.stored.end();
    if (st != flow.stored.end() && st->second.first + FORWARD > flow.ready[rd]) {
      flow.ready[rd] = st->second.first + FORWARD;
      flow.links[rd] = st->second.second + 2;
      flow.use[FORWARDED]++;
    }
  }
  if (op == 0x23) flow.stored[s.st_addr] = {flow.ready[rs2], flow.links[rs2]};
  flow.insts++;
  flow.use[TAKEN] += s.next_pc != s.pc + 4;
  if (op == 0x63 || op == 0x6f || op == 0x67) if (s.pc != pass_mark) flow.next[s.pc].insert(s.inst == 0x8067 ? 0 : s.next_pc); // returns go where their call came from
  if (op == 0x63) flow.ways[s.pc].push_back(s.next_pc != s.pc + 4);
  flow.code.insert(s.pc >> 6);
  if (s.load) flow.data.insert(s.ld_addr >> 6);
  if (s.store) flow.data.insert(s.st_addr >> 6);
  if (s.pc != pass_mark) return;
  Pass p{};
  p.cycle = sim_time;
  p.insts = flow.insts;
  p.mispred = cpu.ctx.perf.cond_mispred_num + cpu.ctx.perf.jalr_mispred_num + cpu.ctx.perf.ret_mispred_num;
  p.reads = cpu.axi_interconnect.vp_reads;
  p.writes = cpu.axi_interconnect.vp_writes;
  long k = std::max_element(flow.ready, flow.ready + 32) - flow.ready;
  p.chain = flow.ready[k];
  p.links = flow.links[k];
  memcpy(p.use, flow.use, sizeof p.use);
  passes.push_back(p);
}

// at most four lines in any sixty-fourth of the address lines, at most fourteen pages: fits every size offered
static bool fits(const std::set<uint32_t> &lines) {
  uint32_t n[64] = {};
  std::set<uint32_t> pages;
  for (uint32_t l : lines) { n[l & 63]++; pages.insert(l >> 6); }
  return *std::max_element(n, n + 64) <= 4 && pages.size() <= 14;
}

// every transfer always goes the same way (or one of a few branches repeats), and no more than two compete for a place in a table of 64 per bank
static bool stable(uint32_t varying) {
  uint32_t n[64] = {};
  for (auto &t : flow.next) {
    if (t.second.size() > 1) { // or a branch whose ways repeat after four times
      auto &w = flow.ways[t.first];
      if (t.second.size() > 2 || w.empty() || !varying--) return false;
      for (size_t i = 4; i < w.size(); i++) if (w[i] != w[i - 4]) return false;
    }
    n[t.first >> 2 & 63]++;
  }
  n[pass_mark >> 2 & 63]++;
  return *std::max_element(n, n + 64) <= 2;
}

static void steady_check(const gen::Case &c) {
  int64_t what = c.get("steady", 0);
  if (!what || passes.size() < 20) return;
  const Pass &a = passes[passes.size() / 2], &b = passes[passes.size() - 2];
  uint64_t n = passes.size() - 2 - passes.size() / 2;
  uint64_t cyc = (uint64_t)(b.cycle - a.cycle), chain = b.chain - a.chain, in = b.insts - a.insts, mp = b.mispred - a.mispred, rd = b.reads - a.reads, wr = b.writes - a.writes;
  uint64_t use[USES];
  for (int i = 0; i < USES; i++) use[i] = b.use[i] - a.use[i];
  if (use[OTHER] || (what == 1 && use[SYSTEM])) return;
  for (auto &w : c.data) if (w.first >= gen::A_PT) flow.data.insert(w.first >> 6); // page tables are cached as well
  if (what == 1) {
    R->steady = n;
    if (cyc + 24 < chain)
      finish(ST_BAD, "too-fast", "%llu passes took %llu cycles, their chain of dependent operations needs %llu", (unsigned long long)n, (unsigned long long)cyc, (unsigned long long)chain);
    if (!fits(flow.code) || !fits(flow.data)) return;
    // what the passes need of everything else; operations off the chain may delay it by taking its place in a unit,
    // and the many loads that wait for a store in a wide machine take turns
    uint64_t wait = DECODE_WIDTH > 2 ? 2 * use[FORWARDED] : 0;
    uint64_t off = in > b.links - a.links ? in - (b.links - a.links) : 0;
    uint64_t need = std::max({chain, (in + use[TAKEN]) / DECODE_WIDTH, use[MULS] * 2, use[LONG], use[STORES], use[BRANCHES]});
    if (cyc > need + need / 8 + off / 2 + wait + n + 24 + 40 * mp)
      finish(ST_BAD, "too-slow", "%llu passes took %llu cycles; %llu instructions, chain of dependent operations %llu, %llu mispredictions", (unsigned long long)n, (unsigned long long)cyc, (unsigned long long)in, (unsigned long long)chain, (unsigned long long)mp);
  } else if (what == 2) {
    if (!stable(2)) return;
    R->steady = flow.next.size();
    if (mp > (stable(0) ? n / 10 : n / 3))
      finish(ST_BAD, "mispredicts", "%llu mispredictions in the last %llu passes of a loop whose every transfer goes the same way or repeats", (unsigned long long)mp, (unsigned long long)n);
  } else {
    if (!stable(0) || !fits(flow.code) || !fits(flow.data)) return;
    R->steady = flow.data.size();
    rd = 0; // of lines the program uses; the fetch unit may run ahead into others
    for (uint64_t i = a.reads; i < b.reads; i++) {
      uint32_t l = cpu.axi_interconnect.vp_read_addr[i] >> 6;
      rd += flow.code.count(l) || flow.data.count(l);
    }
    if (rd || wr)
      finish(ST_BAD, "memory-traffic", "%llu reads and %llu writes on the bus in the last %llu passes over %zu lines of code and %zu of data", (unsigned long long)rd, (unsigned long long)wr, (unsigned long long)n, flow.code.size(), flow.data.size());
  }
}
} // namespace vps
