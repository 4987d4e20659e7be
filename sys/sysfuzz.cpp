// Lock-step fuzzing of the whole simulated machine.
//
// Every generated program runs twice: on the simulator (built from the current
// /repo sources) and on the independent model in golden/.  The simulator reports
// each retired instruction through the same functions its own checker uses
// (diff.h); this file implements those functions, so the comparison point is the
// architectural commit stream and nothing inside the pipeline.
//
// Each case runs in a forked child: a crash, an assertion, an exit() or a hang in
// the simulator is an outcome like any other.
#include "SimCpu.h"
#include "PhysMemory.h"
#include "diff.h"
#include "oracle.h"
#include "../golden/golden.h"
#include "../golden/gen.h"
#include "../golden/steady.h"
#include "profiles.h"
#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <fcntl.h>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef VERIF_MAIN
extern long long sim_time; // main.cpp is linked in, its main() renamed
extern SimCpu cpu;
int vp_sim_main(int, char **);
#else
long long sim_time = 0;
SimCpu cpu;
#endif
#ifndef VERIF_DIFF
CPU_state dut_cpu;
#endif
static gold::Golden *G;

// ---------------------------------------------------------------- results
enum { ST_NONE = 0, ST_OK = 1, ST_BAD = 2, ST_DOMAIN = 3 };
struct Result {
  volatile int status;
  char kind[64];
  char msg[1500];
  uint64_t commits, cycles, syncs, flush_hint;
  uint64_t axi_r, axi_w, mispred, ended, injected, steady;
  gold::Cov cov;
};
static Result *R;

static void finish(int st, const char *kind, const char *fmt, ...) {
  if (R->status) return;
  va_list ap;
  va_start(ap, fmt);
  snprintf(R->kind, sizeof R->kind, "%s", kind);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  R->cov = G->cov;
  R->status = st;
}

// ------------------------------------------------- commit-stream comparison
static uint64_t commits, last_commit_cycle;
static long long mtip_change = -1000000, meip_change = -1000000;
static bool mtip_level, meip_level;
static uint64_t irq_wait_commits;
static long long irq_wait_since;
static uint32_t last_timer_lo;
static bool have_timer;
static uint64_t timer_set; // value the program last wrote to the counter
static bool ended;
static bool check_cause_tval = true;

static uint32_t dev_certain() {
  uint32_t b = 0;
  if (mtip_level && sim_time - mtip_change > 64) b |= gold::B_MTIP;
  if (meip_level && sim_time - meip_change > 64) b |= gold::B_MEIP;
  return b;
}
static uint32_t dev_possible() {
  uint32_t b = 0;
  if (mtip_level || sim_time - mtip_change <= 64) b |= gold::B_MTIP;
  if (meip_level || sim_time - meip_change <= 64) b |= gold::B_MEIP;
  return b;
}
static void update_levels() {
  bool t = (uint64_t)sim_time + G->timer_off >= G->timer_cmp, e = G->ext_level();
  if (t != mtip_level) { mtip_level = t; mtip_change = sim_time; }
  if (e != meip_level) { meip_level = e; meip_change = sim_time; }
}

static std::string where(const gold::Step &s) {
  char b[200];
  snprintf(b, sizeof b, "commit #%llu cycle %lld pc=%08x inst=%08x (dut pc=%08x inst=%08x) priv=%d: ",
           (unsigned long long)commits, sim_time, s.pc, s.inst, dut_cpu.commit_pc, dut_cpu.instruction, G->priv);
  return b;
}

static bool compare(const gold::Step &s, bool is_irq) {
  std::string w = where(s);
  if (dut_cpu.commit_pc != s.pc) { finish(ST_BAD, "commit-pc", "%scommitted pc %08x, expected %08x", w.c_str(), dut_cpu.commit_pc, s.pc); return false; }
  if (!is_irq && !s.pf_inst && dut_cpu.instruction != s.inst) {
    finish(ST_BAD, "fetch", "%scommitted instruction %08x, memory holds %08x", w.c_str(), dut_cpu.instruction, s.inst);
    return false;
  }
  if (!is_irq) {
    if (dut_cpu.page_fault_inst != s.pf_inst || dut_cpu.page_fault_load != s.pf_load || dut_cpu.page_fault_store != s.pf_store) {
      finish(ST_BAD, "page-fault", "%spage faults inst/load/store %d%d%d, expected %d%d%d", w.c_str(), dut_cpu.page_fault_inst,
             dut_cpu.page_fault_load, dut_cpu.page_fault_store, s.pf_inst, s.pf_load, s.pf_store);
      return false;
    }
  }
  for (int i = 1; i < 32; i++)
    if (dut_cpu.gpr[i] != G->gpr[i]) {
      finish(ST_BAD, s.load ? "load-value" : "gpr", "%sx%d=%08x, expected %08x", w.c_str(), i, dut_cpu.gpr[i], G->gpr[i]);
      return false;
    }
  if (dut_cpu.gpr[0]) { finish(ST_BAD, "gpr", "%sx0=%08x", w.c_str(), dut_cpu.gpr[0]); return false; }
  for (int i = 0; i < gold::I_NCSR; i++) {
    uint32_t a = dut_cpu.csr[i], b = G->csr_val(i);
    if (i == gold::I_MIP) { a &= ~G->hw_mip; b &= ~G->hw_mip; }
    if (a != b) {
      finish(ST_BAD, "csr", "%s%s=%08x, expected %08x", w.c_str(), gold::kCsrName[i], a, b);
      return false;
    }
  }
  if (!s.ended && dut_cpu.pc != s.next_pc) {
    finish(ST_BAD, "next-pc", "%snext pc %08x, expected %08x", w.c_str(), dut_cpu.pc, s.next_pc);
    return false;
  }
  if (!is_irq) {
    if (dut_cpu.store != s.store) { finish(ST_BAD, "store", "%sstore performed=%d, expected %d", w.c_str(), dut_cpu.store, s.store); return false; }
    if (s.store) {
      uint32_t d = s.st_data << ((s.st_addr & 3) * 8);
      if (dut_cpu.store_addr != s.st_addr || dut_cpu.store_data != d) {
        finish(ST_BAD, "store", "%sstore [%08x]=%08x, expected [%08x]=%08x", w.c_str(), dut_cpu.store_addr, dut_cpu.store_data, s.st_addr, d);
        return false;
      }
    }
  }
  return true;
}

#ifdef VERIF_MAIN
static void tally_step(const gold::Step &s, bool interrupt);
#endif
#include "steady.h"
static void on_commit(bool sync, int dut_priv) {
  if (R->status) return;
  commits++;
  if (getenv("FT")) printf("C t=%lld pc=%08x\n", sim_time, dut_cpu.commit_pc);
  last_commit_cycle = (uint64_t)sim_time;
  if (ended) { finish(ST_BAD, "runs-on", "instruction %08x committed after the program ended", dut_cpu.commit_pc); return; }
  update_levels();

  if (sync) {
    R->syncs++;
    uint32_t cert = dev_certain(), poss = dev_possible();
    // does the report look like an interrupt entry?
    for (int sub = 0; sub < 4; sub++) {
      uint32_t bits = ((sub & 1) ? (uint32_t)gold::B_MTIP : 0) | ((sub & 2) ? (uint32_t)gold::B_MEIP : 0);
      auto pend = G->takeable(bits);
      if (!pend.empty()) {
        auto q = pend[0];
        uint32_t epc = dut_cpu.csr[q.to_s ? gold::I_SEPC : gold::I_MEPC], cause = dut_cpu.csr[q.to_s ? gold::I_SCAUSE : gold::I_MCAUSE];
        uint32_t tv = q.to_s ? G->c_stvec : G->c_mtvec;
        uint32_t tgt = (tv & ~3u) + ((tv & 1) ? 4 * q.code : 0);
        if (epc != G->pc || cause != (0x80000000u | q.code) || dut_cpu.pc != tgt) continue;
        if ((bits & cert) != cert || (bits & ~poss)) continue; // not a state the devices can be in
        gold::Step s = G->take_interrupt(q);
        irq_wait_commits = 0;
#ifdef VERIF_MAIN
        tally_step(s, true);
#endif
        if (!compare(s, true)) return;
        if (dut_priv >= 0 && dut_priv != G->priv) { finish(ST_BAD, "privilege", "%sprivilege %d, expected %d", where(s).c_str(), dut_priv, G->priv); return; }
        update_levels();
        return;
      }
    }
  }
  uint32_t I = 0, rd = 0;
  {
    uint32_t pa;
    std::string d = G->domain;
    gold::Cov c = G->cov;
    if (!(G->pc & 3) && G->translate(G->pc, 0, pa)) I = G->rw(pa);
    G->domain = d;
    G->cov = c;
    rd = (I >> 7) & 31;
  }
  G->mmio_override_valid = true;
  G->mmio_override = rd ? dut_cpu.gpr[rd] : 0;
  G->mmio_loose = false;
  bool mipread = (I & 0x7f) == 0x73 && (I >> 12 & 3) && (I >> 20) == 0x344 && rd;
  G->mip_extra = mipread ? (dut_cpu.gpr[rd] & G->hw_mip) : 0;
  bool is_sc = (I & 0x7f) == 0x2f && (I >> 27) == 3;
  G->sc_force_ok = is_sc && (rd ? dut_cpu.gpr[rd] == 0 : dut_cpu.store);
  uint32_t cert = dev_certain(), poss = dev_possible();
  gold::Step s = G->step();
  if (!G->domain.empty()) { finish(ST_DOMAIN, "domain", "%s at pc %08x", G->domain.c_str(), s.pc); return; }
#ifdef VERIF_MAIN
  tally_step(s, false);
#endif
  if (!compare(s, false)) return;
  if (mipread) {
    uint32_t v = G->mip_extra;
    if ((v & cert) != cert || (v & ~poss)) {
      finish(ST_BAD, "mip", "%spending bits read as %08x, devices imply between %08x and %08x", where(s).c_str(), v, cert, poss);
      return;
    }
  }
  if (s.mmio_store && (s.st_addr == gold::TIMER || s.st_addr == gold::TIMER + 4)) {
    uint64_t now = (uint64_t)sim_time + G->timer_off;
    now = s.st_addr == gold::TIMER ? (now & ~0xffffffffull) | s.st_data : (now & 0xffffffffull) | ((uint64_t)s.st_data << 32);
    G->timer_off = now - (uint64_t)sim_time;
    timer_set = now;
    have_timer = false;
  }
  if (s.mmio_load && G->mmio_loose && rd) {
    uint32_t v = dut_cpu.gpr[rd];
    uint64_t now = (uint64_t)sim_time + G->timer_off;
    if (s.ld_addr == gold::TIMER) {
      bool bad = (uint32_t)now - v > std::min<uint64_t>(4000u, now - timer_set) || (have_timer && (int32_t)(v - last_timer_lo) < 0);
      if (bad) { finish(ST_BAD, "timer", "%stimer read %08x at time %08x (previous read %08x)", where(s).c_str(), v, (uint32_t)now, last_timer_lo); return; }
      last_timer_lo = v;
      have_timer = true;
    } else if (v != (uint32_t)(now >> 32) && v != (uint32_t)((now - 4000) >> 32)) {
      finish(ST_BAD, "timer", "%stimer high read %08x", where(s).c_str(), v);
      return;
    }
  }
  if (sync && dut_priv >= 0 && !s.ended && dut_priv != G->priv) {
    finish(ST_BAD, "privilege", "%sprivilege %d, expected %d", where(s).c_str(), dut_priv, G->priv);
    return;
  }
  if (s.ended) ended = true;
  vps::pass_commit(s);
  update_levels();
  // a pending, enabled interrupt has to be taken eventually
  if (!G->takeable(dev_certain()).empty()) {
    if (!irq_wait_commits) irq_wait_since = sim_time;
    irq_wait_commits++;
    if (irq_wait_commits > 24 && sim_time - irq_wait_since > 100) {
      finish(ST_BAD, "irq-lost", "%senabled interrupt pending for %llu instructions and %lld cycles without being taken", where(s).c_str(),
             (unsigned long long)irq_wait_commits, sim_time - irq_wait_since);
      return;
    }
  } else
    irq_wait_commits = 0;
}

#ifdef VERIF_DIFF
// The simulator's own checker is linked in as well. Its verdict on every
// retired instruction is held against the independent model's: it must accept
// what the model accepts, and reject a report this harness has altered.
#include <csetjmp>
extern "C" {
void __real__Z13difftest_stepb(bool);
void __real__Z22difftest_sync_from_duth(uint8_t);
void __real_exit(int) __attribute__((noreturn));
void __real_abort() __attribute__((noreturn));
static jmp_buf diff_jmp;
static volatile bool in_diff;
#ifdef VERIF_MAIN
static jmp_buf stop_jmp;
static volatile bool main_exit;
static volatile int main_status;
#endif
void __wrap_exit(int c) {
  if (in_diff) longjmp(diff_jmp, 1);
#ifdef VERIF_MAIN
  if (main_exit) { main_status = c; longjmp(stop_jmp, 2); }
#endif
  __real_exit(c);
}
void __wrap_abort() { if (in_diff) longjmp(diff_jmp, 1); __real_abort(); }
}
static gen::Rng inj(1);
static uint32_t inj_pct;
static bool diff_rejects() {
  static std::ostringstream said;
  auto *keep = std::cout.rdbuf(said.rdbuf());
  in_diff = true;
  volatile bool rej = setjmp(diff_jmp) != 0;
  if (!rej) __real__Z13difftest_stepb(true);
  in_diff = false;
  std::cout.rdbuf(keep);
  return rej;
}
// alters one thing the report says; returns a description, empty if nothing was altered
static std::string alter() {
  char b[120] = "";
  uint32_t k = inj.below(32), bit = 1u << inj.below(32);
  switch (inj.below(7)) {
  case 0: case 1: case 2:
    if (k == 0) k = 1;
    dut_cpu.gpr[k] ^= bit;
    snprintf(b, sizeof b, "x%u changed to %08x", k, dut_cpu.gpr[k]);
    break;
  case 3: {
    k = inj.below(21);
    if (k == gold::I_MIP || k == gold::I_SIP) break; // device-driven bits are not compared
    dut_cpu.csr[k] ^= bit;
    snprintf(b, sizeof b, "csr #%u changed to %08x", k, dut_cpu.csr[k]);
    break;
  }
  case 4:
    dut_cpu.pc ^= bit;
    snprintf(b, sizeof b, "next pc changed to %08x", dut_cpu.pc);
    break;
  case 5:
    if (dut_cpu.page_fault_inst) break;
    dut_cpu.instruction ^= bit;
    snprintf(b, sizeof b, "instruction changed to %08x", dut_cpu.instruction);
    break;
  case 6:
    if (!dut_cpu.store) { dut_cpu.store = true; dut_cpu.store_addr = 0x80100000u + k * 4; dut_cpu.store_data = bit; snprintf(b, sizeof b, "store invented"); }
    else switch (inj.below(3)) {
    case 0: dut_cpu.store = false; snprintf(b, sizeof b, "store dropped"); break;
    case 1: dut_cpu.store_addr ^= bit; snprintf(b, sizeof b, "store address changed to %08x", dut_cpu.store_addr); break;
    default: dut_cpu.store_data ^= bit; snprintf(b, sizeof b, "store data changed to %08x", dut_cpu.store_data); break;
    }
    break;
  }
  return b;
}
#ifdef VERIF_MAIN
static void ref_step();
static void first_commit();
static void stop_run();
#endif
extern "C" void __wrap__Z13difftest_stepb(bool check) {
  (void)check;
  if (R->status) return;
#ifdef VERIF_MAIN
  if (!check) { __real__Z13difftest_stepb(false); ref_step(); return; }
  first_commit();
  on_commit(false, -1);
  if (!R->status && diff_rejects()) finish(ST_BAD, "false-alarm", "commit #%llu pc=%08x inst=%08x is right and was rejected", (unsigned long long)commits, dut_cpu.commit_pc, dut_cpu.instruction);
  stop_run();
  return;
#endif
  on_commit(false, -1);
  if (R->status == ST_BAD) { R->status = 0; { std::string why = R->msg; finish(ST_DOMAIN, "dut", "the simulator itself is wrong here: %s", why.c_str()); }; }
  if (R->status) return;
  if (inj_pct && inj.pct(inj_pct)) {
    CPU_state keep = dut_cpu;
    std::string what = alter();
    bool rej = diff_rejects();
    dut_cpu = keep;
    if (what.empty()) { if (rej) finish(ST_BAD, "false-alarm", "commit #%llu pc=%08x rejected", (unsigned long long)commits, dut_cpu.commit_pc); return; }
    R->injected++;
    if (!rej) finish(ST_BAD, "undetected", "commit #%llu pc=%08x inst=%08x: %s, not noticed", (unsigned long long)commits, dut_cpu.commit_pc, dut_cpu.instruction, what.c_str());
    return;
  }
  if (diff_rejects()) finish(ST_BAD, "false-alarm", "commit #%llu pc=%08x inst=%08x is right and was rejected", (unsigned long long)commits, dut_cpu.commit_pc, dut_cpu.instruction);
}
extern "C" void __wrap__Z22difftest_sync_from_duth(uint8_t p) {
  if (R->status) return;
#ifdef VERIF_MAIN
  first_commit();
#endif
  on_commit(true, p);
#ifdef VERIF_MAIN
  stop_run();
  __real__Z22difftest_sync_from_duth(p);
  return;
#endif
  if (R->status == ST_BAD) { R->status = 0; { std::string why = R->msg; finish(ST_DOMAIN, "dut", "the simulator itself is wrong here: %s", why.c_str()); }; }
  __real__Z22difftest_sync_from_duth(p);
}
static void diff_boot(const gen::Case &c) {
  inj = gen::Rng((uint64_t)c.get("seed", 1) ^ 0x1d1ff);
  inj_pct = (uint32_t)c.get("inject", 0);
  init_difftest(0x700000);
  for (auto *v : {&c.code, &c.data})
    for (auto &w : *v) if (w.first >= 0x80700000u && pmem_is_ram_addr(w.first, 4)) difftest_sync_ram_range_from_dut(w.first, 4);
}
#ifdef VERIF_MAIN
static void load_case(const gen::Case &c, bool dut);
#include "mainmode.h"
#endif
#else
static void diff_boot(const gen::Case &) {}
void difftest_step(bool) { on_commit(false, -1); }
void difftest_sync_from_dut(uint8_t p) { on_commit(true, p); }
void init_difftest(int) {}
void init_diff_ckpt(CPU_state, uint8_t) {}
void get_state(CPU_state &, uint8_t &) {}
void difftest_sync_ram_range_from_dut(uint32_t, size_t) {}
bool difftest_ref_sim_end() { return false; }
bool difftest_ref_last_inst_is_wfi() { return false; }
void difftest_ref_set_uart_print(bool) {}
void difftest_ref_set_ref_only(bool) {}
void difftest_ref_set_device_effects(bool) {}
uint64_t difftest_get_oracle_timer() { return 0; }
void difftest_dump_memory_line(const char *, uint32_t) {}
#endif
#ifndef VERIF_ORACLE
void init_oracle(int) {}
void init_oracle_ckpt(CPU_state, uint8_t) {}
uint64_t get_oracle_timer() { return 0; }
void push_oracle_timer(uint32_t) {}
void get_oracle(front_top_in &, front_top_out &) {}
#endif

// ---------------------------------------------- synthetic front end (V_be)
// Supplies the back end with fetch groups: right instructions, arbitrary but
// legal predictions.  Wrong predictions are part of the generated input.
static gen::Rng frng(1);
static uint32_t f_pc;
static uint32_t mp_cond, mp_ind, f_bubble, f_short;
static uint32_t f_wait;

static bool peek(uint32_t pc, uint32_t &w) {
  std::string d = G->domain;
  gold::Cov c = G->cov;
  uint32_t pa;
  bool ok = G->translate(pc, 0, pa);
  G->domain = d;
  G->cov = c;
  if (!ok) return false;
  if (gold::Golden::is_ram(pa) || pa < 16) w = G->rw(pa);
  else w = frng.u32();
  return true;
}

static uint32_t f_cstall;
static void synth_front(front_top_in &in, front_top_out &out) {
  memset((void *)&out, 0, sizeof out);
  out.commit_stall = f_cstall && frng.pct(f_cstall);
  if (in.reset) { f_pc = 0; return; }
  if (in.refetch) { f_pc = in.refetch_address; f_wait = f_bubble ? 1 + frng.below(4) : 1; return; }
  if (!in.FIFO_read_enable) return;
  if (f_wait) { f_wait--; return; }
  if (f_bubble && frng.pct(f_bubble)) return;
  uint32_t pc = f_pc & ~3u;
  out.FIFO_valid = true;
  uint32_t next = pc;
  int n = FETCH_WIDTH;
  if (f_short && frng.pct(f_short)) n = 1 + (int)frng.below(FETCH_WIDTH);
  for (int j = 0; j < FETCH_WIDTH; j++) {
    out.pc[j] = pc + 4 * j;
    out.instructions[j] = 0x13;
  }
  for (int j = 0; j < n; j++) {
    uint32_t p = pc + 4 * j, w;
    if (j && (p & 63) == 0) break;
    out.inst_valid[j] = true;
    next = p + 4;
    if (!peek(p, w)) { out.page_fault_inst[j] = true; out.instructions[j] = 0x13; continue; }
    out.instructions[j] = w;
    uint32_t op = w & 0x7f;
    if (op == 0x6f) {
      int32_t im = ((int32_t)(w & 0x80000000u) >> 11) | (w & 0xff000u) | ((w >> 9) & 0x800u) | ((w >> 20) & 0x7feu);
      out.predict_dir[j] = true;
      next = p + im;
      break;
    }
    if (op == 0x67) {
      out.predict_dir[j] = true;
      uint32_t t = G->gpr[(w >> 15) & 31] + (uint32_t)((int32_t)w >> 20); // often right: registers settle early
      if (frng.pct(mp_ind)) {
        switch (frng.below(4)) {
        case 0: t = gen::A_BODY + frng.below(512) * 4; break;
        case 1: t = p + 4; break;
        case 2: t = frng.u32(); break;
        default: t = gen::A_FN + frng.below(64) * 4; break;
        }
      }
      next = t & ~3u;
      break;
    }
    if (op == 0x63) {
      int32_t im = ((int32_t)(w & 0x80000000u) >> 19) | ((w << 4) & 0x800u) | ((w >> 20) & 0x7e0u) | ((w >> 7) & 0x1eu);
      bool t = im < 0 || ((w >> 12 & 7) == 5 || (w >> 12 & 7) == 7);
      if (frng.pct(mp_cond)) t = frng.pct(50);
      if (t) { out.predict_dir[j] = true; next = p + im; break; }
    }
  }
  out.predict_next_fetch_address = next;
  f_pc = next;
  if (getenv("FT")) { printf("F t=%lld pc=%08x n=", sim_time, pc); for (int j = 0; j < FETCH_WIDTH; j++) printf("%d%d ", (int)out.inst_valid[j], (int)out.predict_dir[j]); printf(" next=%08x refetch=%d\n", next, (int)in.refetch); }
}

#ifdef VERIF_SYNTH_FRONT
void FrontTop::init() {
  CsrStatusIO *bound = in.csr_status;
  memset((void *)&in, 0, sizeof in);
  memset((void *)&out, 0, sizeof out);
  in.csr_status = bound;
  in.FIFO_read_enable = true;
}
void FrontTop::step_bpu() { synth_front(in, out); }
void FrontTop::step_oracle() { synth_front(in, out); }
void FrontTop::dump_debug_state() const {}
#endif

// ------------------------------------------------------------- one case
static void load_case(const gen::Case &c, bool dut) {
  for (auto *v : {&c.code, &c.data})
    for (auto &w : *v) {
      G->ww(w.first, w.second);
      if (dut) pmem_write(w.first, w.second);
    }
}
static void boot(gold::Golden &g) { g.reset(); }

// Dry run on the model alone: discards programs outside the supported subset and
// appends a read-back of everything the program wrote.
static bool dry(gen::Case &c, std::string &why, bool extend) {
  G->reset_mem();
  G->reset();
  load_case(c, false);
  G->mmio_override_valid = true;
  G->mmio_override = 1000;
  G->mip_extra = 0;
  G->sc_force_ok = true;
  int64_t n = c.get("maxcommit", 900);
  gold::Step s;
  int64_t i = 0;
  for (; i < n; i++) {
    s = G->step();
    if (!G->domain.empty()) { why = G->domain; return false; }
    if (s.ended) break;
  }
  if (!extend || !s.ended || s.wfi) return true;
  uint32_t pa;
  if (!G->translate(s.pc, 0, pa)) return true;
  int room = 60;
  uint32_t at = pa;
  std::vector<uint32_t> dw(G->dirty_words.begin(), G->dirty_words.end());
  std::sort(dw.begin(), dw.end());
  if (dw.empty()) return true;
  bool trans = G->priv != 3 && (G->c_satp >> 31);
  if (trans && G->priv == 0) return true;
  gen::Rng r(c.get("seed", 1));
  std::vector<uint32_t> pick;
  while ((int)pick.size() < room && !dw.empty()) {
    size_t k = r.below((uint32_t)dw.size());
    pick.push_back(dw[k]);
    dw.erase(dw.begin() + (long)k);
  }
  std::map<uint32_t, uint32_t> words;
  for (uint32_t a : pick) {
    if (a >= 0x80300000u && trans) continue;
    uint32_t va = trans ? gen::V_PHYS + (a - 0x80000000u) : a;
    int32_t lo = (int32_t)(va << 20) >> 20;
    words[at] = gen::eU(0x37, 6, va - (uint32_t)lo); at += 4;
    words[at] = gen::eI(0x03, 7, 2, 6, lo); at += 4;
  }
  words[at] = gen::EBREAK;
  for (auto &w : c.code) if (words.count(w.first)) { w.second = words[w.first]; words.erase(w.first); }
  for (auto &w : words) c.code.push_back(w);
  c.p["maxcommit"] = n + 2 * room + 8;
  return true;
}

#ifdef VERIF_MAIN
static void run_dut(const gen::Case &c) { run_main(c); }
#else
static void run_dut(const gen::Case &c) {
  G->reset_mem();
  G->reset();
  load_case(c, true);
  for (auto &w : G->io) pmem_write(w.first, w.second);
  diff_boot(c);
  commits = last_commit_cycle = 0;
  sim_time = 0;
  auto &s = axi_interconnect::vp_schedule;
  s.seed = (uint64_t)c.get("seed", 1);
  s.ready_pct = (uint32_t)c.get("ready", 100);
  s.lat_min = (uint32_t)c.get("lmin", 1);
  s.lat_max = (uint32_t)c.get("lmax", 4);
  s.tail_pct = (uint32_t)c.get("tail", 0);
  s.tail_max = (uint32_t)c.get("tmax", 0);
  s.reorder = c.get("reorder", 0) != 0;
  s.max_outstanding = (uint32_t)c.get("maxout", 8);
  cpu.axi_interconnect.init();
  frng = gen::Rng((uint64_t)c.get("seed", 1) ^ 0xfe7c4);
  mp_cond = (uint32_t)c.get("mp_cond", 0);
  mp_ind = (uint32_t)c.get("mp_ind", 0);
  f_bubble = (uint32_t)c.get("bubble", 0);
  f_short = (uint32_t)c.get("short", 0);
  f_cstall = (uint32_t)c.get("cstall", 0);
  f_pc = 0;
  f_wait = 0;
  vps::pass_mark = (uint32_t)c.get("mark", 0);
  std::ostringstream uart;
  std::cout.rdbuf(uart.rdbuf());
  uint64_t maxc = (uint64_t)c.get("maxcommit", 900);
  uint64_t stall_limit = 20000;
  update_levels();
  while (!R->status && cpu.ctx.exit_reason == ExitReason::NONE) {
    sim_time++;
    update_levels();
    cpu.cycle();
    R->cycles = (uint64_t)sim_time;
    R->commits = commits;
    if (commits >= maxc) break;
    if ((uint64_t)sim_time - last_commit_cycle > stall_limit) {
      finish(ST_BAD, "no-progress", "no instruction committed for %llu cycles after commit #%llu; next pc should be %08x",
             (unsigned long long)stall_limit, (unsigned long long)commits, G->pc);
      break;
    }
  }
  R->axi_r = cpu.axi_interconnect.vp_reads;
  R->axi_w = cpu.axi_interconnect.vp_writes;
  R->mispred = cpu.ctx.perf.cond_mispred_num + cpu.ctx.perf.jalr_mispred_num;
  R->ended = ended;
  if (!R->status && ended) vps::steady_check(c);
  if (!R->status) {
    if (cpu.ctx.exit_reason != ExitReason::NONE && !ended) finish(ST_BAD, "early-exit", "simulation ended (reason %d) at commit #%llu, program has not", (int)cpu.ctx.exit_reason, (unsigned long long)commits);
    else if (ended && cpu.ctx.exit_reason == ExitReason::NONE) finish(ST_BAD, "no-exit", "program ended, simulation did not");
    else if (uart.str() != G->uart_out) finish(ST_BAD, "uart", "console output differs: \"%s\" expected \"%s\"", uart.str().c_str(), G->uart_out.c_str());
    else if (ended && G->dma_settled) {
      // copied data must have reached memory
      for (uint32_t a : G->dma_words)
        if (pmem_read(a) != G->rw(a)) {
          finish(ST_BAD, "dma", "device copy left %08x at %08x, expected %08x", pmem_read(a), a, G->rw(a));
          break;
        }
    }
    if (!R->status) finish(ST_OK, "ok", "");
  }
#ifdef VERIF_DIFF
  if (R->status == ST_BAD && strcmp(R->kind, "false-alarm") && strcmp(R->kind, "undetected")) R->status = ST_DOMAIN; // not the checker's doing
#endif
}
#endif

// runs the case in a child; returns a copy of the result
static int fill = -1; // what fresh heap and stack memory contains
static long long skew; // seconds the second run believes to be later
extern "C" {
int clock_gettime(clockid_t id, struct timespec *t) noexcept {
  long r = syscall(SYS_clock_gettime, id, t);
  t->tv_sec += skew;
  t->tv_nsec = (t->tv_nsec + (skew ? 123457 : 0)) % 1000000000;
  return (int)r;
}
time_t time(time_t *p) noexcept {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
int gettimeofday(struct timeval *v, void *) noexcept {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  v->tv_sec = t.tv_sec;
  v->tv_usec = t.tv_nsec / 1000;
  return 0;
}
}
void *operator new(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (fill < 0) { const char *e = getenv("VERIF_FILL"); fill = e ? atoi(e) : 0; } // also before main
  if (fill && n < (64u << 20)) memset(p, fill, n);
  return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
__attribute__((noinline)) static void scribble() {
  volatile unsigned char b[1 << 20];
  for (size_t i = 0; i < sizeof b; i++) b[i] = (unsigned char)(fill + i % 7);
}
static Result run_once(const gen::Case &c, std::string *log = nullptr) {
  memset((void *)R, 0, sizeof *R);
  int mf = memfd_create("log", 0);
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    dup2(mf, 1);
    dup2(mf, 2);
    struct rlimit rl = {90, 90};
    setrlimit(RLIMIT_CPU, &rl);
    if (fill) {
      scribble();
      skew = fill * 1000003ll;
      if (!malloc((size_t)fill * 4112)) _exit(5); // other addresses
    }
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    run_dut(c);
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (R->status == ST_OK && WIFSIGNALED(st)) R->status = 0; // died on the way out
  Result r;
  memcpy((void *)&r, (void *)R, sizeof r);
  std::string tail;
  if (!r.status || log) {
    off_t n = lseek(mf, 0, SEEK_END);
    off_t from = n > 1200 && !getenv("FT") ? n - 1200 : 0;
    tail.resize((size_t)(n - from));
    if (pread(mf, &tail[0], tail.size(), from) < 0) {}
    if (log) *log = tail;
  }
  close(mf);
  if (!r.status) {
    r.status = ST_BAD;
    std::string d = tail;
    for (char &ch : d) if ((unsigned char)ch < 32 && ch != '\n') ch = ' ';
    size_t a = d.find("ssert");
    if (a != std::string::npos) d = d.substr(a > 60 ? a - 60 : 0);
    if (d.size() > 700) d = d.substr(d.size() - 700);
    if (WIFSIGNALED(st)) { snprintf(r.kind, sizeof r.kind, "signal-%d", WTERMSIG(st)); }
    else snprintf(r.kind, sizeof r.kind, "abort");
    snprintf(r.msg, sizeof r.msg, "simulator terminated (%s %d) after %llu commits: %s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st),
             (unsigned long long)r.commits, d.c_str());
  }
  return r;
}

#ifdef VERIF_MAIN
// the same case in a process of its own, started on memory with other contents
static Result run_elsewhere(const gen::Case &c, int how) {
  int cf = memfd_create("case", 0), of = memfd_create("outcome", 0);
  std::string t = c.text();
  put(cf, t.data(), t.size());
  if (ftruncate(of, sizeof(Result) + REPORT_MAX)) _exit(5);
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    setenv("VERIF_FILL", std::to_string(how).c_str(), 1);
    std::string a = "/proc/self/fd/" + std::to_string(cf), b = std::to_string(of);
    execl("/proc/self/exe", "sysfuzz", "--once", a.c_str(), "--into", b.c_str(), (char *)nullptr);
    _exit(5);
  }
  int st = 0;
  waitpid(p, &st, 0);
  Result r;
  memset((void *)&r, 0, sizeof r);
  std::string rep(REPORT_MAX, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) || pread(of, (void *)&r, sizeof r, 0) != sizeof r || pread(of, &rep[0], REPORT_MAX, sizeof(Result)) < 0) {
    r.status = ST_BAD;
    snprintf(r.kind, sizeof r.kind, "second-run");
    snprintf(r.msg, sizeof r.msg, "second run gives no result (wait status %d)", st);
  }
  rep[REPORT_MAX - 1] = 0;
  snprintf(report_text, REPORT_MAX, "%s", rep.c_str());
  close(cf);
  close(of);
  return r;
}
static int once(const std::string &file, int of) {
  gen::Case c;
  if (!gen::Case::load(file, c)) return 3;
  Result r = run_once(c);
  if (pwrite(of, (void *)&r, sizeof r, 0) != sizeof r || pwrite(of, report_text, REPORT_MAX, sizeof r) != (ssize_t)REPORT_MAX) return 4;
  return 0;
}
#endif

static Result run_case(const gen::Case &c, std::string *log = nullptr) {
  Result r = run_once(c, log);
#ifdef VERIF_MAIN
  if (c.get("twice", 0) && r.status == ST_OK) {
    std::string first((const char *)report_text);
    r = run_elsewhere(c, (int)c.get("twice", 0));
    if (r.status == ST_OK && first != report_text) {
      std::istringstream a(first), b(report_text);
      std::string x, y;
      while (std::getline(a, x) && std::getline(b, y) && x == y) {}
      r.status = ST_BAD;
      snprintf(r.kind, sizeof r.kind, "unreproducible");
      snprintf(r.msg, sizeof r.msg, "two runs of the same program report \"%s\" and \"%s\"", x.c_str(), y.c_str());
    }
  }
#endif
  return r;
}

// ------------------------------------------------------------- reduction
static bool still(const gen::Case &c, const std::string &kind, double deadline) {
  (void)deadline;
  gen::Case t = c;
  std::string why;
  if (!dry(t, why, false)) return false;
  Result r = run_case(c);
  return r.status == ST_BAD && kind == r.kind;
}
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static gen::Case shrink(gen::Case c, const std::string &kind, double budget) {
  double end = now_s() + budget;
  // shorten to the failing commit
  {
    Result r = run_case(c);
    if (r.status == ST_BAD && r.commits) { gen::Case t = c; t.p["maxcommit"] = (int64_t)r.commits + 2; if (still(t, kind, end)) c = t; }
  }
  // schedule first
  struct { const char *k; int64_t v; } simple[] = {{"bubble", 0}, {"cstall", 0}, {"short", 0}, {"mp_ind", 0}, {"mp_cond", 0}, {"tail", 0}, {"reorder", 0}, {"ready", 100}, {"lmin", 1}, {"lmax", 4}, {"maxout", 1}, {"o0", 0}, {"o1", 0}, {"o2", 0}, {"o3", 0}, {"o4", 0}, {"tgt", 0}, {"first", 0}};
  for (auto &k : simple) {
    if (now_s() > end) return c;
    if (!c.p.count(k.k) || c.p[k.k] == k.v) continue;
    gen::Case t = c;
    t.p[k.k] = k.v;
    if (still(t, kind, end)) c = t;
  }
  // instructions -> nop, chunk-wise
  for (size_t chunk = std::max<size_t>(1, c.code.size() / 2); chunk >= 1; chunk /= 2) {
    for (size_t i = 0; i < c.code.size(); i += chunk) {
      if (now_s() > end) return c;
      gen::Case t = c;
      bool ch = false;
      for (size_t k = i; k < std::min(i + chunk, c.code.size()); k++)
        if (t.code[k].second != gen::NOP) { t.code[k].second = gen::NOP; ch = true; }
      if (ch && still(t, kind, end)) c = t;
    }
    if (chunk == 1) break;
  }
  for (size_t chunk = std::max<size_t>(1, c.data.size() / 2); chunk >= 1 && !c.data.empty(); chunk /= 2) {
    for (size_t i = 0; i < c.data.size();) {
      if (now_s() > end) return c;
      gen::Case t = c;
      t.data.erase(t.data.begin() + (long)i, t.data.begin() + (long)std::min(i + chunk, t.data.size()));
      if (still(t, kind, end)) c = t; else i += chunk;
    }
    if (chunk == 1) break;
  }
  return c;
}

static uint64_t fnv(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull; return h; }
static std::string esc(const std::string &s) {
  std::string o;
  for (char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if ((unsigned char)ch < 32 || (unsigned char)ch > 126) o += '?';
    else o += ch;
  }
  return o;
}

// ------------------------------------------------------------- driver
struct Shared {
  volatile uint64_t next, bad, stop;
  volatile uint64_t cases, domain, nontrivial, ended, commits, cycles;
  gold::Cov cov;
  volatile uint64_t axi_r, axi_w, mispred, syncs, injected;
};

static gen::Case make_case(const std::string &prop, uint64_t seed, uint64_t idx, std::string *pname) {
  for (uint64_t attempt = 0;; attempt++) {
    uint64_t s = fnv(prop) ^ (seed * 0x9E3779B97F4A7C15ull) ^ (idx * 0xD1B54A32D192ED03ull) ^ (attempt * 0x2545F4914F6CDD1Dull);
    const gen::Profile &pf = prof::choose(prop, s);
    gen::Case c = prop[0] == 'T' ? gen::make_steady(s, prop) : gen::make(s, pf);
    if (prop[0] == 'X' || prop[0] == 'P') prof::run_mode(prop, s, c.p);
    if (prop == "D02") c.p["inject"] = 4 + (int64_t)(s >> 50) % 16;
    std::string why;
    if (dry(c, why, prop[0] != 'T')) { if (pname) *pname = pf.name; return c; }
    if (attempt > 60) { fprintf(stderr, "generator: no usable program (%s)\n", why.c_str()); return c; }
  }
}

int main(int argc, char **argv) {
  std::map<std::string, std::string> o;
  for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  auto geti = [&](const char *k, long long d) { return o.count(k) ? atoll(o[k].c_str()) : d; };
  std::string prop = o.count("--prop") ? o["--prop"] : "C01";
  R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  G = new gold::Golden();
#ifndef VERIF_MAIN
  pmem_init();
  int so = dup(1), se = dup(2), nul = open("/dev/null", O_WRONLY);
  fflush(stdout);
  dup2(nul, 1);
  dup2(nul, 2);
  cpu.init();
  fflush(stdout);
  std::cout.flush();
  dup2(so, 1);
  dup2(se, 2);
#endif

#ifdef VERIF_MAIN
  report_text = (char *)mmap(nullptr, REPORT_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  zero_gz = deflate_all(std::string(16u << 20, 0));
#endif
#ifdef VERIF_MAIN
  if (o.count("--once")) return once(o["--once"], (int)geti("--into", -1));
#endif
  if (o.count("--replay")) {
    gen::Case c;
    if (!gen::Case::load(o["--replay"], c)) { fprintf(stderr, "cannot read %s\n", o["--replay"].c_str()); return 3; }
    std::string log;
    Result r = run_case(c, &log);
    printf("{\"status\":%d,\"kind\":\"%s\",\"msg\":\"%s\",\"commits\":%llu,\"cycles\":%llu}\n", r.status, esc(r.kind).c_str(), esc(r.msg).c_str(),
           (unsigned long long)r.commits, (unsigned long long)r.cycles);
    if (o.count("--log")) fprintf(stderr, "%s\n", log.c_str());
    return r.status == ST_BAD ? 1 : 0;
  }
  if (o.count("--show")) {
    std::string pn;
    gen::Case c = make_case(prop, (uint64_t)geti("--seed", 1), (uint64_t)geti("--show", 0), &pn);
    printf("%s", c.text().c_str());
    return 0;
  }
  if (o.count("--shrink")) {
    gen::Case c;
    if (!gen::Case::load(o["--shrink"], c)) return 3;
    Result r = run_case(c);
    if (r.status != ST_BAD) { fprintf(stderr, "does not fail\n"); return 2; }
    c = shrink(c, r.kind, (double)geti("--budget", 60));
    std::ofstream(o["--out"]) << c.text();
    r = run_case(c);
    printf("%s: %s\n", r.kind, r.msg);
    return 0;
  }

  uint64_t seed = (uint64_t)geti("--seed", 1), cases = (uint64_t)geti("--cases", 64), first = (uint64_t)geti("--first", 0);
  int jobs = (int)geti("--jobs", 8);
  double tmax = (double)geti("--time", 700);
  uint64_t maxbad = (uint64_t)geti("--maxbad", 3);
  std::string out = o.count("--out") ? o["--out"] : "/tmp/sysfuzz";
  mkdir(out.c_str(), 0777);
  Shared *S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)S, 0, sizeof *S);
  double t0 = now_s();
  std::vector<pid_t> w;
  for (int j = 0; j < jobs; j++) {
    pid_t p = fork();
    if (p == 0) {
      R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#ifdef VERIF_MAIN
      report_text = (char *)mmap(nullptr, REPORT_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#endif
      FILE *f = fopen((out + "/w" + std::to_string(j) + ".txt").c_str(), "w");
      for (;;) {
        uint64_t i = __sync_fetch_and_add(&S->next, 1);
        if (i >= cases || S->bad >= maxbad || now_s() - t0 > tmax) break;
        std::string pn;
        gen::Case c = make_case(prop, seed, first + i, &pn);
        Result r = run_case(c);
        std::string txt = c.text();
        __sync_fetch_and_add(&S->cases, 1);
        bool nt = r.status != ST_DOMAIN && prof::nontrivial(prop, r.cov, r.commits, r.axi_r, r.axi_w, r.mispred, r.injected, r.steady);
        if (r.status == ST_DOMAIN) __sync_fetch_and_add(&S->domain, 1);
        __sync_fetch_and_add(&S->nontrivial, nt);
        __sync_fetch_and_add(&S->injected, r.injected);
        __sync_fetch_and_add(&S->ended, r.ended);
        __sync_fetch_and_add(&S->commits, r.commits);
        __sync_fetch_and_add(&S->cycles, r.cycles);
        __sync_fetch_and_add(&S->axi_r, r.axi_r);
        __sync_fetch_and_add(&S->axi_w, r.axi_w);
        __sync_fetch_and_add(&S->mispred, r.mispred);
        __sync_fetch_and_add(&S->syncs, r.syncs);
        uint64_t *a = (uint64_t *)&S->cov, *b = (uint64_t *)&r.cov;
        for (size_t k = 0; k < sizeof(gold::Cov) / 8; k++) __sync_fetch_and_add(&a[k], b[k]);
        fprintf(f, "%llu %s %d %s %016llx %d %llu %llu\n", (unsigned long long)(first + i), pn.c_str(), r.status, r.kind, (unsigned long long)fnv(txt), nt, (unsigned long long)r.commits,
                (unsigned long long)r.cycles);
        if (r.status == ST_BAD) {
          __sync_fetch_and_add(&S->bad, 1);
          std::string raw = out + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(first + i) + ".raw.case";
          std::ofstream(raw) << txt;
          std::ofstream(raw + ".txt") << r.kind << "\n" << r.msg << "\n";
          fprintf(f, "BAD %s\n", raw.c_str());
        }
        fflush(f);
      }
      fclose(f);
      _exit(0);
    }
    w.push_back(p);
  }
  for (pid_t p : w) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker failed\n"); return 3; } }
  // summary
  gold::Cov &c = S->cov;
  std::ofstream js(out + "/summary.json");
  js << "{\"cases\":" << S->cases << ",\"domain\":" << S->domain << ",\"nontrivial\":" << S->nontrivial << ",\"ended\":" << S->ended << ",\"commits\":" << S->commits << ",\"cycles\":" << S->cycles << ",\"injected\":" << S->injected
     << ",\"bad\":" << S->bad << ",\"axi_reads\":" << S->axi_r << ",\"axi_writes\":" << S->axi_w << ",\"mispredictions\":" << S->mispred << ",\"syncs\":" << S->syncs;
#define C(x) js << ",\"" #x "\":" << c.x;
  C(alu) C(muldiv) C(fp) C(br) C(br_taken) C(jmp) C(ld) C(st) C(amo) C(lr) C(sc) C(sc_ok) C(csr) C(trap) C(irq) C(pf) C(xret) C(sfence) C(fencei) C(walk) C(superp) C(mmio) C(priv_s) C(priv_u) C(illegal) C(ecall)
#undef C
  js << ",\"wall\":" << (now_s() - t0) << "}\n";
  return S->bad ? 1 : 0;
}
