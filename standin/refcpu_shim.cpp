#include "refcpu_api.h"
#include "Csr.h"
#include "ref.h"
#include <algorithm>
#include <sys/mman.h>
#include <vector>

struct RefCpuContext {
  RefCpu c;
  bool devices = true;
};

RefCpuContext *vp_ref_ctx;
// the fetch oracle's copy, told apart from the checker's by the name it is built with
RefCpuContext *refcpu_init_oracle(uint32_t reset_pc, uint32_t) {
  auto *x = new RefCpuContext();
  x->c.init(reset_pc);
  x->c.state.pc = reset_pc;
  return x;
}
RefCpuContext *refcpu_init(uint32_t reset_pc, uint32_t ram) { return vp_ref_ctx = refcpu_init_oracle(reset_pc, ram); }
void refcpu_destroy(RefCpuContext *x) { free(x->c.memory); delete x; }
void refcpu_get_state(RefCpuContext *x, RefCpuState *s) {
  const CPU_state &t = x->c.state;
  memcpy(s->gpr, t.gpr, sizeof s->gpr);
  memcpy(s->csr, t.csr, sizeof s->csr);
  s->pc = t.pc;
  s->store_addr = t.store_addr;
  s->store_data = t.store_data;
  s->store_strb = t.store_strb;
  s->store = t.store;
  s->instruction = x->c.Instruction;
  s->page_fault_inst = x->c.page_fault_inst;
  s->page_fault_load = x->c.page_fault_load;
  s->page_fault_store = x->c.page_fault_store;
  s->inst_idx = t.inst_idx;
  s->commit_pc = t.commit_pc;
  s->reserve_valid = t.reserve_valid;
  s->reserve_addr = t.reserve_addr;
  s->privilege = x->c.privilege;
}
void refcpu_set_state(RefCpuContext *x, const RefCpuState *s) {
  CPU_state &t = x->c.state;
  memcpy(t.gpr, s->gpr, sizeof t.gpr);
  memcpy(t.csr, s->csr, sizeof t.csr);
  t.pc = s->pc;
  t.store_addr = s->store_addr;
  t.store_data = s->store_data;
  t.store_strb = s->store_strb;
  t.store = s->store;
  t.inst_idx = s->inst_idx;
  t.commit_pc = s->commit_pc;
  t.reserve_valid = s->reserve_valid;
  t.reserve_addr = s->reserve_addr;
  x->c.privilege = s->privilege;
}
void refcpu_get_step_info(RefCpuContext *x, RefCpuStepInfo *i) {
  RefCpu &c = x->c;
  *i = {c.Instruction, c.page_fault_inst, c.page_fault_load, c.page_fault_store, c.is_exception, c.is_csr, c.is_mmio_load || c.is_mmio_store, c.is_br, c.br_taken, c.sim_end};
}
// Without device effects the model takes no interrupt of its own accord: the
// processor under test reports when it took one and its state is copied over.
static void step_quiet(RefCpuContext *x) {
  RefCpu &c = x->c;
  uint32_t pa = c.state.pc, w = 0;
  if (!(c.state.csr[csr_satp] >> 31) || c.privilege == 3 || c.va2pa(pa, c.state.pc, 0)) w = c.load_word(pa & ~3u);
  bool pend = (w & 0x7f) == 0x73 && (w >> 12 & 3) && (w >> 20 == 0x344 || w >> 20 == 0x144);
  uint32_t *csr = c.state.csr;
  if (pend) {
    uint32_t mie = csr[csr_mie], sie = csr[csr_sie];
    csr[csr_mie] = csr[csr_sie] = 0;
    c.exec();
    csr[csr_mie] = mie;
    csr[csr_sie] = sie;
  } else {
    uint32_t mip = csr[csr_mip], sip = csr[csr_sip];
    csr[csr_mip] = csr[csr_sip] = 0;
    c.exec();
    csr[csr_mip] = mip;
    csr[csr_sip] = sip;
  }
}
void refcpu_step(RefCpuContext *x, uint64_t n) {
  while (n--) {
    if (x->devices) x->c.exec();
    else step_quiet(x);
  }
}
void refcpu_set_sim_end(RefCpuContext *x, bool v) { x->c.sim_end = v; }
void refcpu_set_sim_time(RefCpuContext *, uint64_t) {} // the interpreter reads the simulator's clock
void refcpu_set_dut_expected_faults(RefCpuContext *x, bool i, bool l, bool s) {
  x->c.dut_expect_pf_inst = i;
  x->c.dut_expect_pf_load = l;
  x->c.dut_expect_pf_store = s;
}
void refcpu_set_uart_print(RefCpuContext *x, bool v) { x->c.uart_print = v; }
void refcpu_set_ref_only(RefCpuContext *x, bool v) { x->c.ref_only = v; }
void refcpu_set_device_effects(RefCpuContext *x, bool v) {
  x->devices = v;
  for (uint32_t a : {0x1fd0e008u, 0x1fd0e00cu}) x->c.store_word(a, v ? 0 : ~0u); // without devices the model's own timer never fires
}
void refcpu_clear_io_words(RefCpuContext *x) { x->c.io_words.clear(); }
void refcpu_set_io_word(RefCpuContext *x, uint32_t a, uint32_t d) { if (d) x->c.io_words[a] = d; else if (!x->c.io_words.empty()) x->c.io_words.erase(a); }
uint32_t refcpu_get_io_word(RefCpuContext *x, uint32_t a) { auto i = x->c.io_words.find(a); return i == x->c.io_words.end() ? 0 : i->second; }
uint32_t refcpu_load_word(RefCpuContext *x, uint32_t a) { return x->c.load_word(a & ~3u); }
uint32_t *refcpu_get_ram_ptr(RefCpuContext *x) { return x->c.memory; }
// copies only pages that exist: untouched memory of either side reads as zero
void refcpu_sync_ram_from_dut(RefCpuContext *x, const uint32_t *ram, size_t bytes) {
  const size_t page = 4096;
  uint8_t *d = (uint8_t *)x->c.memory;
  const uint8_t *s = (const uint8_t *)ram;
  auto resident = [&](const uint8_t *p, std::vector<unsigned char> &v) {
    uintptr_t a = (uintptr_t)p & ~(page - 1), e = ((uintptr_t)p + bytes + page - 1) & ~(page - 1);
    v.assign((e - a) / page, 0);
    return mincore((void *)a, e - a, v.data()) == 0;
  };
  std::vector<unsigned char> rs, rd;
  if (bytes < (1u << 20) || !resident(s, rs) || !resident(d, rd)) { memcpy(d, s, bytes); return; }
  auto has = [&](const uint8_t *base, const std::vector<unsigned char> &v, size_t off, size_t n) {
    size_t f = ((uintptr_t)base % page + off) / page, l = ((uintptr_t)base % page + off + n - 1) / page;
    for (; f <= l; f++) if (v[f] & 1) return true;
    return false;
  };
  for (size_t off = 0; off < bytes; off += page) {
    size_t n = std::min(page, bytes - off);
    bool zero = !has(s, rs, off, n) || (!s[off] && !memcmp(s + off, s + off + 1, n - 1));
    if (!zero) memcpy(d + off, s + off, n);
    else if (has(d, rd, off, n)) memset(d + off, 0, n);
  }
}
void refcpu_sync_ram_range_from_dut(RefCpuContext *x, uint32_t a, const void *d, size_t n) { memcpy((uint8_t *)x->c.memory + (a - 0x80000000u), d, n); }
bool refcpu_probe_pc_translation(RefCpuContext *x) {
  uint32_t pa;
  return !(x->c.state.csr[csr_satp] >> 31) || x->c.privilege == 3 || x->c.va2pa(pa, x->c.state.pc, 0);
}
