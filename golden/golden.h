// Independent instruction-set model of the machine this repository simulates:
// RV32IMA + Zba/Zbb/Zbc/Zbs(+pack/packh) + Zfinx, M/S/U, Sv32, written from the
// RISC-V manuals and the repository's documented subset.  It shares no code with
// the simulator.  It also polices the input domain: executions that leave the
// subset the simulator documents (misaligned data, unmapped physical addresses,
// stale translations, stale instruction bytes, reserved encodings) set `domain`.
#pragma once
#include "fp.h"
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace gold {

// Index order of the architected CSR file as the difftest interface exposes it.
enum CsrIdx {
  I_MTVEC, I_MEPC, I_MCAUSE, I_MIE, I_MIP, I_MTVAL, I_MSCRATCH, I_MSTATUS,
  I_MIDELEG, I_MEDELEG, I_SEPC, I_STVEC, I_SCAUSE, I_SSCRATCH, I_STVAL,
  I_SSTATUS, I_SIE, I_SIP, I_SATP, I_MHARTID, I_MISA, I_NCSR
};
static const char *const kCsrName[I_NCSR] = {
    "mtvec", "mepc", "mcause", "mie", "mip", "mtval", "mscratch", "mstatus",
    "mideleg", "medeleg", "sepc", "stvec", "scause", "sscratch", "stval",
    "sstatus", "sie", "sip", "satp", "mhartid", "misa"};

static const uint32_t RAM_BASE = 0x80000000u, RAM_BYTES = 0x40000000u;
static const uint32_t UART = 0x10000000u, PLIC = 0x0c000000u,
                      PLIC_CLAIM = 0x0c201004u, TIMER = 0x1fd0e000u,
                      DMA = 0x1fd0f000u;
static const uint32_t SSTATUS_MASK = 0x800DE133u, MSTATUS_WMASK = 0x807FF9BBu;
static const uint32_t B_MSIP = 1 << 3, B_MTIP = 1 << 7, B_MEIP = 1 << 11,
                      B_SSIP = 1 << 1, B_STIP = 1 << 5, B_SEIP = 1 << 9;

struct Step {
  uint32_t pc = 0, inst = 0, next_pc = 0;
  bool inst_valid = false; // instruction word was fetched
  bool store = false;
  uint32_t st_addr = 0, st_data = 0, st_size = 0; // physical, data unshifted
  bool load = false;
  uint32_t ld_addr = 0;
  bool mmio_load = false, mmio_store = false;
  bool trap = false, interrupt = false;
  uint32_t cause = 0, tval = 0;
  bool pf_inst = false, pf_load = false, pf_store = false, illegal = false;
  bool ended = false, wfi = false; // ebreak / wfi reached
  uint8_t rd = 0;
  bool rd_written = false;
  bool reads_mip = false;
  bool sc = false, sc_ok = false, sc_unspec = false;
  bool amo = false;
};

struct Cov {
  uint64_t alu = 0, muldiv = 0, fp = 0, br = 0, br_taken = 0, jmp = 0, ld = 0,
           st = 0, amo = 0, lr = 0, sc = 0, sc_ok = 0, csr = 0, trap = 0,
           irq = 0, pf = 0, xret = 0, sfence = 0, sfence_va = 0, aspace = 0, fencei = 0, walk = 0,
           superp = 0, mmio = 0, priv_s = 0, priv_u = 0, illegal = 0, ecall = 0;
};

struct Golden {
  uint32_t gpr[32];
  uint32_t c_mtvec, c_mepc, c_mcause, c_mie, c_mip, c_mtval, c_mscratch,
      c_mstatus, c_mideleg, c_medeleg, c_sepc, c_stvec, c_scause, c_sscratch,
      c_stval, c_satp;
  uint32_t pc;
  uint8_t priv;
  bool resv;
  uint32_t resv_addr;
  bool resv_own_store; // own store hit the reserved word since LR
  bool resv_trap;      // a trap was taken since LR
  uint8_t *ram;
  std::unordered_map<uint32_t, uint32_t> io; // non-RAM words
  // domain policing
  std::string domain; // non-empty: execution left the supported subset
  bool track_stale = true;
  std::unordered_map<uint32_t, bool> st_since_sfence; // word -> held a global entry
  std::unordered_set<uint32_t> st_since_fencei;
  // root table each address-space number has stood for since the last full fence
  std::map<uint32_t, uint32_t> spaces;
  bool satp_dirty = false;
  Cov cov;
  // memory undo-free log of touched RAM pages (for final comparison)
  std::unordered_set<uint32_t> dirty_words;
  std::unordered_set<uint32_t> dma_words; // last written by a device copy
  bool dma_settled = true;                // a device read followed the last copy

  // ---- device model (see load_mmio/store_mmio)
  uint64_t timer_cmp = 0, timer_off = 0;
  uint32_t dma_src = 0, dma_dst = 0, dma_len = 0, dma_ctrl = 0, dma_stat = 0;
  bool uart_irq = false, dma_irq = false;
  std::string uart_out;

  Golden() {
    ram = (uint8_t *)mmap(nullptr, RAM_BYTES, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (ram == MAP_FAILED) { perror("mmap"); _exit(3); }
    reset();
  }
  ~Golden() { if (ram) munmap(ram, RAM_BYTES); }
  Golden(const Golden &) = delete;
  Golden &operator=(const Golden &) = delete;

  void reset_mem() {
    madvise(ram, RAM_BYTES, MADV_DONTNEED);
    io.clear();
    dirty_words.clear();
    dma_words.clear();
    dma_settled = true;
  }
  void reset() {
    memset(gpr, 0, sizeof gpr);
    c_mtvec = c_mepc = c_mcause = c_mie = c_mip = c_mtval = c_mscratch =
        c_mstatus = c_mideleg = c_medeleg = c_sepc = c_stvec = c_scause =
            c_sscratch = c_stval = c_satp = 0;
    pc = 0;
    priv = 3;
    resv = false;
    resv_addr = 0;
    resv_own_store = resv_trap = false;
    domain.clear();
    st_since_sfence.clear();
    spaces.clear();
    st_since_fencei.clear();
    satp_dirty = false;
    cov = Cov();
    timer_cmp = timer_off = 0;
    dma_src = dma_dst = dma_len = dma_ctrl = dma_stat = 0;
    uart_irq = dma_irq = false;
    uart_out.clear();
    // boot stub the simulator installs at reset
    io[0x0] = 0xf1402573;
    io[0x4] = 0x83e005b7;
    io[0x8] = 0x800002b7;
    io[0xc] = 0x00028067;
    io[UART + 4] = 0x6000;
  }

  // ---------------------------------------------------------------- memory
  static bool is_ram(uint32_t a) { return a >= RAM_BASE && a - RAM_BASE < RAM_BYTES; }
  static bool in(uint32_t a, uint32_t b, uint32_t n) { return a >= b && a - b < n; }
  bool is_mmio(uint32_t a) const {
    return in(a, UART, 0x100) || (interp && in(a, 0x1fb00000u, 0x1000)) || in(a, PLIC, 0x210000) || in(a, DMA, 0x100) ||
           in(a, TIMER, interp ? 0x100 : 16);
  }
  uint32_t rw(uint32_t a) const { // raw aligned word
    a &= ~3u;
    if (is_ram(a)) { uint32_t v; memcpy(&v, ram + (a - RAM_BASE), 4); return v; }
    auto it = io.find(a);
    return it == io.end() ? 0 : it->second;
  }
  void ww(uint32_t a, uint32_t v) {
    a &= ~3u;
    if (is_ram(a)) { memcpy(ram + (a - RAM_BASE), &v, 4); return; }
    io[a] = v;
  }
  void dom(const char *why) { if (domain.empty()) domain = why; }
  bool fused_fp = false; // fused multiply-add exists only in the reference model
  // the reference interpreter: every physical address is memory, time is exact,
  // there is no copy engine and the external interrupt is a latch in mip
  bool interp = false;
  uint64_t now = 0;

  // ---------------------------------------------------------------- CSRs
  uint32_t csr_val(int i) const {
    switch (i) {
    case I_MTVEC: return c_mtvec;
    case I_MEPC: return c_mepc;
    case I_MCAUSE: return c_mcause;
    case I_MIE: return c_mie;
    case I_MIP: return c_mip;
    case I_MTVAL: return c_mtval;
    case I_MSCRATCH: return c_mscratch;
    case I_MSTATUS: return c_mstatus;
    case I_MIDELEG: return c_mideleg;
    case I_MEDELEG: return c_medeleg;
    case I_SEPC: return c_sepc;
    case I_STVEC: return c_stvec;
    case I_SCAUSE: return c_scause;
    case I_SSCRATCH: return c_sscratch;
    case I_STVAL: return c_stval;
    case I_SSTATUS: return c_mstatus & SSTATUS_MASK;
    case I_SIE: return c_mie & 0x333;
    case I_SIP: return c_mip & 0x333;
    case I_SATP: return c_satp;
    case I_MHARTID: return mhartid;
    case I_MISA: return misa;
    }
    return 0;
  }
  uint32_t mhartid = 0, misa = 0x40141103u;
  static int csr_idx(uint32_t n) {
    switch (n) {
    case 0x305: return I_MTVEC;
    case 0x341: return I_MEPC;
    case 0x342: return I_MCAUSE;
    case 0x304: return I_MIE;
    case 0x344: return I_MIP;
    case 0x343: return I_MTVAL;
    case 0x340: return I_MSCRATCH;
    case 0x300: return I_MSTATUS;
    case 0x303: return I_MIDELEG;
    case 0x302: return I_MEDELEG;
    case 0x141: return I_SEPC;
    case 0x105: return I_STVEC;
    case 0x142: return I_SCAUSE;
    case 0x140: return I_SSCRATCH;
    case 0x143: return I_STVAL;
    case 0x100: return I_SSTATUS;
    case 0x104: return I_SIE;
    case 0x144: return I_SIP;
    case 0x180: return I_SATP;
    case 0xf14: return I_MHARTID;
    case 0x301: return I_MISA;
    }
    return -1;
  }
  void csr_put(int i, uint32_t v) {
    switch (i) {
    case I_MTVEC: c_mtvec = v; if (v & 2) dom("reserved trap-vector mode"); break;
    case I_MEPC: c_mepc = v; if (v & 3) dom("misaligned exception pc"); break;
    case I_MCAUSE: c_mcause = v; break;
    case I_MIE: c_mie = v & 0xbbb; break;
    case I_MIP: c_mip = (v & 0xbbb & ~hw_mip) | (c_mip & hw_mip); break;
    case I_MTVAL: c_mtval = v; break;
    case I_MSCRATCH: c_mscratch = v; break;
    case I_MSTATUS:
      c_mstatus = (c_mstatus & ~MSTATUS_WMASK) | (v & MSTATUS_WMASK);
      if (((c_mstatus >> 11) & 3) == 2) dom("reserved MPP");
      if (c_mstatus & 0x00700000u) dom("TVM/TW/TSR not modelled");
      break;
    case I_MIDELEG: c_mideleg = v; break;
    case I_MEDELEG: c_medeleg = v; break;
    case I_SEPC: c_sepc = v; if (v & 3) dom("misaligned exception pc"); break;
    case I_STVEC: c_stvec = v; if (v & 2) dom("reserved trap-vector mode"); break;
    case I_SCAUSE: c_scause = v; break;
    case I_SSCRATCH: c_sscratch = v; break;
    case I_STVAL: c_stval = v; break;
    case I_SSTATUS:
      c_mstatus = (c_mstatus & ~SSTATUS_MASK) | (v & SSTATUS_MASK);
      break;
    case I_SIE: c_mie = (c_mie & ~0x333u) | (v & 0x333); break;
    case I_SIP: c_mip = (c_mip & ~0x333u) | (v & 0x333); break;
    case I_SATP:
      c_satp = v;
      if (v >> 31) {
        auto it = spaces.emplace((v >> 22) & 0x1ff, v & 0x3fffffu).first;
        if (it->second != (v & 0x3fffffu)) satp_dirty = true;
        if (spaces.size() > 1) cov.aspace++;
      }
      break;
    case I_MHARTID: dom("write to a read-only csr"); break;
    case I_MISA: dom("write to misa"); break;
    }
  }
  // mip bits wired to devices rather than to software writes
  uint32_t hw_mip = B_MTIP | B_MEIP;

  // ---------------------------------------------------------------- traps
  void enter_trap(Step &s, bool is_irq, uint32_t code, uint32_t tval, bool to_s) {
    s.trap = true;
    resv_trap = true;
    s.interrupt = is_irq;
    s.cause = (is_irq ? 0x80000000u : 0) | code;
    s.tval = tval;
    cov.trap++;
    if (is_irq) cov.irq++;
    uint32_t tv;
    if (to_s) {
      c_sepc = pc;
      c_scause = s.cause;
      c_stval = tval;
      uint32_t sie = (c_mstatus >> 1) & 1;
      c_mstatus &= ~((1u << 1) | (1u << 5) | (1u << 8));
      c_mstatus |= sie << 5;
      c_mstatus |= (uint32_t)(priv & 1) << 8;
      priv = 1;
      tv = c_stvec;
    } else {
      c_mepc = pc;
      c_mcause = s.cause;
      c_mtval = tval;
      uint32_t mie = (c_mstatus >> 3) & 1;
      c_mstatus &= ~((1u << 3) | (1u << 7) | (3u << 11));
      c_mstatus |= mie << 7;
      c_mstatus |= (uint32_t)priv << 11;
      priv = 3;
      tv = c_mtvec;
    }
    uint32_t base = tv & ~3u;
    s.next_pc = ((tv & 1) && is_irq) ? base + 4 * code : base;
    pc = s.next_pc;
  }
  void except(Step &s, uint32_t code, uint32_t tval) {
    if (code == 12) s.pf_inst = true;
    if (code == 13) s.pf_load = true;
    if (code == 15) s.pf_store = true;
    if (code == 12 || code == 13 || code == 15) cov.pf++;
    if (code == 2) { s.illegal = true; cov.illegal++; }
    if (code == 8 || code == 9 || code == 11) cov.ecall++;
    // synchronous traps raised in M-mode are never delegated
    bool deleg = priv != 3 && ((c_medeleg >> code) & 1);
    enter_trap(s, false, code, tval, deleg);
  }

  // ------------------------------------------------------------- translation
  // Last entry on the path of va; true if a translation cached from this table
  // could be used in other address spaces (or the path was changed unfenced).
  bool walk_raw(uint32_t root, uint32_t va, uint32_t &pte) {
    uint32_t w = root * 4096u + (va >> 22) * 4;
    pte = 0;
    if (!is_ram(w)) return false;
    bool g = st_since_sfence.count(w);
    pte = rw(w);
    g |= pte & 0x20;
    if ((pte & 1) && !(pte & 0xe)) {
      w = ((pte >> 10) << 12) + ((va >> 12) & 0x3ff) * 4;
      if (!is_ram(w)) return g;
      g |= st_since_sfence.count(w);
      pte = rw(w);
      g |= pte & 0x20;
    } else if (pte & 1) pte ^= 0x40000000u; // a superpage never equals a page
    return g;
  }
  // Word of the 4 KiB entry of va in the current table, 0 if there is none.
  uint32_t leaf_word(uint32_t va) {
    uint32_t w = (c_satp & 0x3fffffu) * 4096u + (va >> 22) * 4;
    if (!(c_satp >> 31) || !is_ram(w) || st_since_sfence.count(w)) return 0;
    uint32_t pte = rw(w);
    if (!(pte & 1) || (pte & 0xe)) return 0;
    w = ((pte >> 10) << 12) + ((va >> 12) & 0x3ff) * 4;
    return is_ram(w) ? w : 0;
  }
  // 0 fetch, 1 load, 2 store. Returns false on page fault.
  bool translate(uint32_t va, int type, uint32_t &pa) {
    uint32_t ep = priv;
    if (type != 0 && (c_mstatus & (1u << 17))) ep = (c_mstatus >> 11) & 3;
    if (!(c_satp >> 31) || ep == 3) { pa = va; return true; }
    if (track_stale && satp_dirty) dom("address-space number reused without a fence");
    if (track_stale && spaces.size() > 1) {
      uint32_t mine = 0, other = 0;
      walk_raw(c_satp & 0x3fffffu, va, mine);
      for (auto &sp : spaces) {
        if (sp.second == (c_satp & 0x3fffffu)) continue;
        bool g = walk_raw(sp.second, va, other);
        if (g && other != mine) dom("global entry that differs between address spaces");
      }
    }
    cov.walk++;
    bool mxr = c_mstatus & (1u << 19), sum = c_mstatus & (1u << 18);
    uint64_t a = (uint64_t)(c_satp & 0x3fffffu) << 12;
    for (int level = 1; level >= 0; level--) {
      uint32_t vpn = level ? va >> 22 : (va >> 12) & 0x3ff;
      uint64_t pa64 = a + vpn * 4;
      if (pa64 >> 32) { dom("page table above 4 GiB"); return false; }
      uint32_t pta = (uint32_t)pa64;
      if (!is_ram(pta) && !interp) { dom("page table outside RAM"); return false; }
      if (track_stale && st_since_sfence.count(pta)) dom("stale page-table entry");
      uint32_t pte = rw(pta);
      if (!(pte & 1) || (!(pte & 2) && (pte & 4))) return false;
      if (!(pte & 0xa)) { // pointer
        if (level == 0) return false;
        if (pte & 0xd0) dom("reserved bits in a pointer entry");
        a = (uint64_t)(pte >> 10) << 12;
        continue;
      }
      if (type == 0 && !(pte & 8)) return false;
      if (type == 1 && !((pte & 2) || (mxr && (pte & 8)))) return false;
      if (type == 2 && !(pte & 4)) return false;
      if (ep == 0 && !(pte & 0x10)) return false;
      if (ep == 1 && (pte & 0x10) && (type == 0 || !sum)) return false;
      if (level == 1 && ((pte >> 10) & 0x3ff)) return false;
      if (!(pte & 0x40)) return false;
      if (type == 2 && !(pte & 0x80)) return false;
      uint64_t ppn = pte >> 10;
      uint64_t p;
      if (level == 1) { p = ((ppn >> 10) << 22) | (va & 0x3fffffu); cov.superp++; }
      else p = (ppn << 12) | (va & 0xfff);
      if (p >> 32) { dom("physical address above 4 GiB"); return false; }
      pa = (uint32_t)p;
      return true;
    }
    return false;
  }

  // ---------------------------------------------------------------- devices
  void dev_dma_start() {
    auto ok = [](uint32_t a, uint32_t n) {
      return n > 0 && a >= RAM_BASE && (uint64_t)a + n <= (uint64_t)RAM_BASE + RAM_BYTES;
    };
    if (!ok(dma_src, dma_len) || !ok(dma_dst, dma_len)) { dma_stat = 4; return; }
    std::vector<uint8_t> t(ram + (dma_src - RAM_BASE), ram + (dma_src - RAM_BASE) + dma_len);
    memcpy(ram + (dma_dst - RAM_BASE), t.data(), dma_len);
    for (uint32_t a = dma_dst & ~3u; a < dma_dst + dma_len; a += 4) dma_words.insert(a);
    dma_settled = false;
    dma_stat = 2;
    if (dma_ctrl & 2) dma_irq = true;
  }
  uint32_t claim() const { return dma_irq ? 11 : uart_irq ? 10 : 0; }
  bool ext_level() const { return claim() != 0; }
  // value a device read returns; *loose set when the value depends on time
  uint32_t dev_read(uint32_t a, uint32_t f3, bool *loose) {
    *loose = false;
    if (interp) {
      uint64_t t = now + timer_off;
      if (a == TIMER) return ext((uint32_t)t, f3);
      if (a == TIMER + 4) return ext((uint32_t)(t >> 32), f3);
      if (a == TIMER + 8) return ext((uint32_t)timer_cmp, f3);
      if (a == TIMER + 12) return ext((uint32_t)(timer_cmp >> 32), f3);
      return ext(rw(a) >> ((a & 3) * 8), f3);
    }
    if (a == TIMER || a == TIMER + 4) { *loose = true; return 0; }
    if (a == TIMER + 8) return (uint32_t)timer_cmp;
    if (a == TIMER + 12) return (uint32_t)(timer_cmp >> 32);
    if (a == DMA) return dma_src;
    if (a == DMA + 4) return dma_dst;
    if (a == DMA + 8) return dma_len;
    if (a == DMA + 12) return dma_ctrl;
    if (a == DMA + 16) return dma_stat;
    uint32_t w = (a & ~3u) == PLIC_CLAIM ? claim() : rw(a);
    w >>= (a & 3) * 8;
    return ext(w, f3);
  }
  void dev_write(uint32_t a, uint32_t data, uint32_t f3) {
    if ((a >> 12) >= 0x1fd0e && f3 != 2) { dom("sub-word store to a word-only device register"); return; }
    if (interp && in(a, TIMER, 8)) {
      uint64_t t = now + timer_off;
      t = a == TIMER ? (t & ~0xffffffffull) | data : (t & 0xffffffffull) | (uint64_t)data << 32;
      timer_off = t - now;
      return;
    }
    switch (interp && in(a, DMA, 0x100) ? 0 : a) {
    case 0x1fd0e000u: case 0x1fd0e004u: return; // handled by the caller (time)
    case 0x1fd0e008u: timer_cmp = (timer_cmp & ~0xffffffffull) | data; return;
    case 0x1fd0e00cu: timer_cmp = (timer_cmp & 0xffffffffull) | ((uint64_t)data << 32); return;
    case 0x1fd0f000u: dma_src = data; return;
    case 0x1fd0f004u: dma_dst = data; return;
    case 0x1fd0f008u: dma_len = data; return;
    case 0x1fd0f00cu:
      dma_ctrl = data & 2;
      if (data & 1) dev_dma_start();
      return;
    case 0x1fd0f010u: dma_stat &= ~data; return;
    }
    uint32_t sh = (a & 3) * 8, m = (f3 == 0 ? 0xffu : f3 == 1 ? 0xffffu : ~0u);
    uint32_t old = rw(a);
    ww(a, (old & ~(m << sh)) | ((data & m) << sh));
    if (a == UART) {
      uart_out.push_back((char)data);
      ww(a, rw(a) & 0xffffff00u);
    } else if (a == UART + 1) {
      uint8_t c = (uint8_t)(data & m);
      if (c == 7) {
        ww(UART, rw(UART) & 0xfff0ffffu);
        uart_irq = true;
        if (interp) { ww(PLIC_CLAIM, 10); c_mip |= B_MEIP; }
      }
      else if (c == 5) ww(UART, (rw(UART) & 0xfff0ffffu) | 0x30000u);
    } else if (a == PLIC_CLAIM) {
      uint8_t c = (uint8_t)(data & m);
      if (c == 10) {
        uart_irq = false;
        if (interp) { ww(PLIC_CLAIM, 0); c_mip &= ~B_MEIP; }
      }
      else if (c == 11) dma_irq = false;
    }
  }

  // ---------------------------------------------------------------- helpers
  static uint32_t ext(uint32_t w, uint32_t f3) {
    switch (f3) {
    case 0: return (uint32_t)(int32_t)(int8_t)w;
    case 1: return (uint32_t)(int32_t)(int16_t)w;
    case 4: return w & 0xff;
    case 5: return w & 0xffff;
    default: return w;
    }
  }
  void mark_store(uint32_t a, bool g = true) {
    if (is_ram(a)) { dirty_words.insert(a & ~3u); dma_words.erase(a & ~3u); }
    if (track_stale) { st_since_sfence[a & ~3u] |= g; st_since_fencei.insert(a & ~3u); }
  }
  void do_store(Step &s, uint32_t pa, uint32_t data, uint32_t size) {
    s.store = true;
    s.st_addr = pa;
    s.st_size = size;
    s.st_data = size == 1 ? data & 0xff : size == 2 ? data & 0xffff : data;
    if (is_mmio(pa)) {
      s.mmio_store = true;
      cov.mmio++;
      dev_write(pa, data, size == 1 ? 0 : size == 2 ? 1 : 2);
      return;
    }
    uint32_t w = rw(pa), sh = (pa & 3) * 8;
    uint32_t m = size == 4 ? ~0u : ((1u << (size * 8)) - 1) << sh;
    ww(pa, (w & ~m) | ((data << sh) & m));
    mark_store(pa, (w | rw(pa)) & 0x20);
    if (resv && (resv_addr & ~3u) == (pa & ~3u)) resv_own_store = true;
  }
  static uint32_t rol32(uint32_t x, uint32_t n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
  static uint32_t clmul64(uint32_t a, uint32_t b, int which) {
    uint64_t r = 0;
    for (int i = 0; i < 32; i++) if ((b >> i) & 1) r ^= (uint64_t)a << i;
    if (which == 0) return (uint32_t)r;
    if (which == 1) return (uint32_t)(r >> 32);
    return (uint32_t)(r >> 31);
  }

  // Read value used instead of memory for MMIO loads whose value depends on time.
  // The driver sets it before calling step().
  bool mmio_override_valid = false;
  uint32_t mmio_override = 0;
  bool mmio_loose = false;
  uint32_t mip_extra = 0; // device-driven mip bits as seen by a mip/sip read

  // ---------------------------------------------------------------- step
  Step step() {
    Step s;
    s.pc = pc;
    gpr[0] = 0;
    if (pc & 3) { dom("misaligned pc"); s.ended = true; return s; }
    uint32_t fpa;
    if (priv == 1) cov.priv_s++;
    if (priv == 0) cov.priv_u++;
    if (!translate(pc, 0, fpa)) { except(s, 12, pc); return s; }
    if (!is_ram(fpa) && !(fpa < 16) && !interp) { dom("fetch outside RAM"); s.ended = true; return s; }
    if (track_stale && st_since_fencei.count(fpa)) dom("stale instruction bytes");
    uint32_t I = rw(fpa);
    s.inst = I;
    s.inst_valid = true;
    uint32_t op = I & 0x7f, rd = (I >> 7) & 31, f3 = (I >> 12) & 7,
             rs1 = (I >> 15) & 31, rs2 = (I >> 20) & 31, f7 = I >> 25;
    uint32_t a = gpr[rs1], b = gpr[rs2];
    uint32_t np = pc + 4;
    int32_t immi = (int32_t)I >> 20;
    auto wr = [&](uint32_t v) { if (rd) { gpr[rd] = v; s.rd = rd; s.rd_written = true; } };
    switch (op) {
    case 0x37: cov.alu++; wr(I & 0xfffff000u); break;
    case 0x17: cov.alu++; wr(pc + (I & 0xfffff000u)); break;
    case 0x6f: {
      int32_t im = ((int32_t)(I & 0x80000000u) >> 11) | (I & 0xff000u) |
                   ((I >> 9) & 0x800u) | ((I >> 20) & 0x7feu);
      cov.jmp++;
      wr(pc + 4);
      np = pc + im;
      if (np & 3) dom("misaligned jump target");
      break;
    }
    case 0x67:
      if (f3) dom("reserved jalr encoding");
      cov.jmp++;
      np = (a + immi) & ~1u;
      wr(pc + 4);
      if (np & 3) dom("misaligned jump target");
      break;
    case 0x63: {
      int32_t im = ((int32_t)(I & 0x80000000u) >> 19) | ((I << 4) & 0x800u) |
                   ((I >> 20) & 0x7e0u) | ((I >> 7) & 0x1eu);
      bool t = false;
      switch (f3) {
      case 0: t = a == b; break;
      case 1: t = a != b; break;
      case 4: t = (int32_t)a < (int32_t)b; break;
      case 5: t = (int32_t)a >= (int32_t)b; break;
      case 6: t = a < b; break;
      case 7: t = a >= b; break;
      default: dom("reserved branch encoding");
      }
      cov.br++;
      if (t) { cov.br_taken++; np = pc + im; }
      if (np & 3) dom("misaligned jump target");
      break;
    }
    case 0x03: {
      uint32_t va = a + immi, pa, sz = f3 & 3;
      if (f3 == 3 || f3 > 5) { dom("reserved load encoding"); break; }
      if (va & ((1u << sz) - 1)) { dom("misaligned load"); break; }
      cov.ld++;
      if (!translate(va, 1, pa)) { except(s, 13, va); return s; }
      s.load = true;
      s.ld_addr = pa;
      uint32_t v;
      if (is_mmio(pa)) {
        s.mmio_load = true;
        dma_settled = true;
        cov.mmio++;
        v = dev_read(pa, f3, &mmio_loose);
        if (mmio_loose && mmio_override_valid) v = mmio_override;
      } else if (!is_ram(pa) && !interp) {
        dom("load outside RAM");
        v = 0;
      } else
        v = ext(rw(pa) >> ((pa & 3) * 8), f3);
      wr(v);
      break;
    }
    case 0x23: {
      int32_t im = ((int32_t)I >> 25 << 5) | (int32_t)((I >> 7) & 31);
      uint32_t va = a + im, pa, sz = f3;
      if (f3 > 2) { dom("reserved store encoding"); break; }
      if (va & ((1u << sz) - 1)) { dom("misaligned store"); break; }
      cov.st++;
      if (!translate(va, 2, pa)) { except(s, 15, va); return s; }
      if (!is_mmio(pa) && !is_ram(pa) && !interp) { dom("store outside RAM"); break; }
      do_store(s, pa, b, 1u << sz);
      break;
    }
    case 0x13: {
      cov.alu++;
      uint32_t sh = rs2;
      switch (f3) {
      case 0: wr(a + immi); break;
      case 2: wr((int32_t)a < immi); break;
      case 3: wr(a < (uint32_t)immi); break;
      case 4: wr(a ^ immi); break;
      case 6: wr(a | immi); break;
      case 7: wr(a & immi); break;
      case 1:
        if (f7 == 0) wr(a << sh);
        else if (f7 == 0x14) wr(a | (1u << sh));
        else if (f7 == 0x24) wr(a & ~(1u << sh));
        else if (f7 == 0x34) wr(a ^ (1u << sh));
        else if (f7 == 0x30 && rs2 == 0) { uint32_t n = 0; while (n < 32 && !((a >> (31 - n)) & 1)) n++; wr(n); }
        else if (f7 == 0x30 && rs2 == 1) { uint32_t n = 0; while (n < 32 && !((a >> n) & 1)) n++; wr(n); }
        else if (f7 == 0x30 && rs2 == 2) { uint32_t n = 0; for (int i = 0; i < 32; i++) n += (a >> i) & 1; wr(n); }
        else if (f7 == 0x30 && rs2 == 4) wr((uint32_t)(int32_t)(int8_t)a);
        else if (f7 == 0x30 && rs2 == 5) wr((uint32_t)(int32_t)(int16_t)a);
        else dom("reserved op-imm encoding");
        break;
      case 5:
        if (f7 == 0) wr(a >> sh);
        else if (f7 == 0x20) wr((uint32_t)((int32_t)a >> sh));
        else if (f7 == 0x30) wr(rol32(a, 32 - sh));
        else if (f7 == 0x24) wr((a >> sh) & 1);
        else if (f7 == 0x34 && rs2 == 24) wr((a >> 24) | ((a >> 8) & 0xff00) | ((a << 8) & 0xff0000) | (a << 24));
        else if (f7 == 0x14 && rs2 == 7) {
          uint32_t r = 0;
          for (int i = 0; i < 4; i++) if ((a >> (8 * i)) & 0xff) r |= 0xffu << (8 * i);
          wr(r);
        } else dom("reserved op-imm encoding");
        break;
      }
      break;
    }
    case 0x33: {
      uint32_t k = (f7 << 3) | f3, sh = b & 31;
      cov.alu++;
      switch (k) {
      case 0x000: wr(a + b); break;
      case 0x100: wr(a - b); break;
      case 0x001: wr(a << sh); break;
      case 0x002: wr((int32_t)a < (int32_t)b); break;
      case 0x003: wr(a < b); break;
      case 0x004: wr(a ^ b); break;
      case 0x005: wr(a >> sh); break;
      case 0x105: wr((uint32_t)((int32_t)a >> sh)); break;
      case 0x006: wr(a | b); break;
      case 0x007: wr(a & b); break;
      case 0x008: cov.muldiv++; wr(a * b); break;
      case 0x009: cov.muldiv++; wr((uint32_t)(((int64_t)(int32_t)a * (int64_t)(int32_t)b) >> 32)); break;
      case 0x00a: cov.muldiv++; wr((uint32_t)(((int64_t)(int32_t)a * (int64_t)(uint64_t)b) >> 32)); break;
      case 0x00b: cov.muldiv++; wr((uint32_t)(((uint64_t)a * b) >> 32)); break;
      case 0x00c: cov.muldiv++; wr(b == 0 ? ~0u : (a == 0x80000000u && b == ~0u) ? a : (uint32_t)((int32_t)a / (int32_t)b)); break;
      case 0x00d: cov.muldiv++; wr(b == 0 ? ~0u : a / b); break;
      case 0x00e: cov.muldiv++; wr(b == 0 ? a : (a == 0x80000000u && b == ~0u) ? 0 : (uint32_t)((int32_t)a % (int32_t)b)); break;
      case 0x00f: cov.muldiv++; wr(b == 0 ? a : a % b); break;
      case 0x082: wr(b + (a << 1)); break; // sh1add
      case 0x084: wr(b + (a << 2)); break;
      case 0x086: wr(b + (a << 3)); break;
      case 0x104: wr(~(a ^ b)); break; // xnor
      case 0x106: wr(a | ~b); break;   // orn
      case 0x107: wr(a & ~b); break;   // andn
      case 0x029: wr(clmul64(a, b, 0)); break;
      case 0x02b: wr(clmul64(a, b, 1)); break;
      case 0x02a: wr(clmul64(a, b, 2)); break;
      case 0x02c: wr((int32_t)a < (int32_t)b ? a : b); break;
      case 0x02d: wr(a < b ? a : b); break;
      case 0x02e: wr((int32_t)a < (int32_t)b ? b : a); break;
      case 0x02f: wr(a < b ? b : a); break;
      case 0x181: wr(rol32(a, sh)); break;
      case 0x185: wr(rol32(a, 32 - sh)); break;
      case 0x121: wr(a & ~(1u << sh)); break; // bclr
      case 0x125: wr((a >> sh) & 1); break;   // bext
      case 0x1a1: wr(a ^ (1u << sh)); break;  // binv
      case 0x0a1: wr(a | (1u << sh)); break;  // bset
      case 0x024: wr((a & 0xffff) | (b << 16)); break; // pack / zext.h
      case 0x027: wr((a & 0xff) | ((b & 0xff) << 8)); break; // packh
      default: dom("reserved op encoding");
      }
      break;
    }
    case 0x0f:
      if (f3 == 1) { cov.fencei++; st_since_fencei.clear(); }
      else if (f3 != 0) dom("reserved misc-mem encoding");
      break;
    case 0x2f: {
      uint32_t f5 = I >> 27, pa, va = a;
      if (f3 != 2) { dom("reserved amo width"); break; }
      if (va & 3) { dom("misaligned amo"); break; }
      s.amo = true;
      cov.amo++;
      if (f5 == 2) {
        if (rs2) { dom("reserved lr encoding"); break; }
        cov.lr++;
        if (!translate(va, 1, pa)) { except(s, 13, va); return s; }
        if (interp ? is_mmio(pa) : !is_ram(pa)) { dom("atomic outside RAM"); break; }
        s.load = true;
        s.ld_addr = pa;
        wr(rw(pa));
        resv = true;
        resv_addr = pa;
        resv_own_store = resv_trap = false;
        break;
      }
      if (f5 != 3 && f5 != 0 && f5 != 1 && f5 != 4 && f5 != 8 && f5 != 12 &&
          f5 != 16 && f5 != 20 && f5 != 24 && f5 != 28) { dom("reserved amo"); break; }
      if (!translate(va, 2, pa)) { except(s, 15, va); return s; }
      if (interp ? is_mmio(pa) : !is_ram(pa)) { dom("atomic outside RAM"); break; }
      if (f5 == 3) {
        cov.sc++;
        s.sc = true;
        bool ok = resv && resv_addr == pa;
        // after an own store to the reserved word or a trap the outcome is unspecified:
        // the architecture allows both
        if (ok && (resv_own_store || resv_trap)) s.sc_unspec = true;
        if (ok && sc_force_fail) ok = false;
        if (ok && (resv_own_store || resv_trap) && !sc_force_ok) ok = false;
        resv = false;
        s.sc_ok = ok;
        if (ok) { cov.sc_ok++; do_store(s, pa, b, 4); }
        wr(ok ? 0 : 1);
        break;
      }
      uint32_t old = rw(pa), n = 0;
      s.load = true;
      s.ld_addr = pa;
      switch (f5) {
      case 0: n = old + b; break;
      case 1: n = b; break;
      case 4: n = old ^ b; break;
      case 8: n = old | b; break;
      case 12: n = old & b; break;
      case 16: n = (int32_t)old < (int32_t)b ? old : b; break;
      case 20: n = (int32_t)old > (int32_t)b ? old : b; break;
      case 24: n = old < b ? old : b; break;
      case 28: n = old > b ? old : b; break;
      }
      do_store(s, pa, n, 4);
      wr(old);
      break;
    }
    case 0x53: case 0x43: case 0x47: case 0x4b: case 0x4f: {
      cov.fp++;
      int rm = f3 == 7 ? 0 : (int)f3;
      bool ill = false;
      auto fpbad = [&](const char *why) { if (interp) ill = true; else dom(why); };
      bool uses_rm = op != 0x53 || f7 == 0 || f7 == 4 || f7 == 8 || f7 == 0xc ||
                     f7 == 0x2c || f7 == 0x60 || f7 == 0x68;
      if (uses_rm && rm > 4) { fpbad("reserved rounding mode"); if (ill) { except(s, 2, I); return s; } break; }
      if (op != 0x53) {
        if (!fused_fp) { dom("fused multiply-add"); break; }
        if ((I >> 25) & 3) { dom("non-single fused op"); break; }
        uint32_t c = gpr[I >> 27], x = a;
        if (op == 0x4b || op == 0x4f) x ^= 0x80000000u;
        if (op == 0x47 || op == 0x4f) c ^= 0x80000000u;
        wr(gfp::fma(x, b, c, rm));
        break;
      }
      switch (f7) {
      case 0x00: wr(gfp::add(a, b, rm)); break;
      case 0x04: wr(gfp::sub(a, b, rm)); break;
      case 0x08: wr(gfp::mul(a, b, rm)); break;
      case 0x0c: wr(gfp::div(a, b, rm)); break;
      case 0x2c: if (rs2) { fpbad("reserved fsqrt"); break; } wr(gfp::sqrt(a, rm)); break;
      case 0x10:
        if (f3 == 0) wr((a & 0x7fffffffu) | (b & 0x80000000u));
        else if (f3 == 1) wr((a & 0x7fffffffu) | (~b & 0x80000000u));
        else if (f3 == 2) wr(a ^ (b & 0x80000000u));
        else fpbad("reserved fsgnj");
        break;
      case 0x14:
        if (f3 == 0) wr(gfp::fmin_(a, b));
        else if (f3 == 1) wr(gfp::fmax_(a, b));
        else fpbad("reserved fminmax");
        break;
      case 0x50:
        if (f3 == 2) wr(gfp::feq(a, b));
        else if (f3 == 1) wr(gfp::flt(a, b));
        else if (f3 == 0) wr(gfp::fle(a, b));
        else fpbad("reserved fcmp");
        break;
      case 0x60:
        if (rs2 == 0) wr(gfp::cvt_w(a, rm));
        else if (rs2 == 1) wr(gfp::cvt_wu(a, rm));
        else fpbad("reserved fcvt");
        break;
      case 0x68:
        if (rs2 == 0) wr(gfp::from_i32((int32_t)a, rm));
        else if (rs2 == 1) wr(gfp::from_u32(a, rm));
        else fpbad("reserved fcvt");
        break;
      case 0x70:
        if (f3 == 1 && rs2 == 0) wr(gfp::fclass(a));
        else fpbad("reserved fclass");
        break;
      default: fpbad("reserved fp encoding");
      }
      if (ill) { except(s, 2, I); return s; }
      break;
    }
    case 0x73:
      if (f3 == 0) {
        if (I == 0x00000073) { except(s, priv == 0 ? 8 : priv == 1 ? 9 : 11, 0); return s; }
        if (I == 0x00100073) { s.ended = true; s.next_pc = pc + 4; return s; }
        if (I == 0x10500073) { s.ended = true; s.wfi = true; s.next_pc = pc + 4; return s; }
        if (I == 0x30200073) {
          if (priv != 3) { dom("mret below machine mode"); break; }
          cov.xret++;
          uint32_t mpp = (c_mstatus >> 11) & 3, mpie = (c_mstatus >> 7) & 1;
          c_mstatus &= ~((3u << 11) | (1u << 3));
          c_mstatus |= mpie << 3;
          c_mstatus |= 1u << 7;
          if (mpp != 3 && (c_mstatus & (1u << 17))) dom("MPRV kept across mret");
          priv = (uint8_t)mpp;
          np = c_mepc;
          break;
        }
        if (I == 0x10200073) {
          if (priv == 0) { dom("sret in user mode"); break; }
          cov.xret++;
          uint32_t spp = (c_mstatus >> 8) & 1, spie = (c_mstatus >> 5) & 1;
          c_mstatus &= ~((1u << 8) | (1u << 1));
          c_mstatus |= spie << 1;
          c_mstatus |= 1u << 5;
          if (c_mstatus & (1u << 17)) dom("MPRV kept across sret");
          priv = (uint8_t)spp;
          np = c_sepc;
          break;
        }
        if (f7 == 0x09 && rd == 0) {
          if (priv == 0) { dom("sfence in user mode"); break; }
          cov.sfence++;
          // a fence that names an address covers the page entry of that address
          // (in one address space: unless it is global); one that names only an
          // address space is taken to cover nothing
          if (rs1 == 0 && rs2 == 0) {
            st_since_sfence.clear();
            satp_dirty = false;
            spaces.clear();
            if (c_satp >> 31) spaces[(c_satp >> 22) & 0x1ff] = c_satp & 0x3fffffu;
          } else if (rs1 && !satp_dirty) {
            uint32_t w = leaf_word(gpr[rs1]);
            auto it = w ? st_since_sfence.find(w) : st_since_sfence.end();
            if (it != st_since_sfence.end() &&
                (rs2 == 0 || ((gpr[rs2] & 0x1ff) == ((c_satp >> 22) & 0x1ff) && !it->second))) {
              st_since_sfence.erase(it);
              cov.sfence_va++;
            }
          }
          break;
        }
        dom("reserved system encoding");
        break;
      }
      if (f3 == 4) { dom("reserved system encoding"); break; }
      {
        uint32_t n = I >> 20;
        if (n == 0xc01 || n == 0xc81) { except(s, 2, I); return s; }
        int i = csr_idx(n);
        if (i < 0) { dom("unimplemented csr"); break; }
        if (priv < ((n >> 8) & 3)) { dom("csr access below its privilege"); break; }
        cov.csr++;
        uint32_t old = csr_val(i);
        if (i == I_MIP) { old = (old & ~hw_mip) | (mip_extra & hw_mip); s.reads_mip = true; }
        if (i == I_SIP) s.reads_mip = true;
        uint32_t src = (f3 & 4) ? rs1 : a;
        bool we = (f3 & 3) == 1 || rs1 != 0;
        uint32_t nv = (f3 & 3) == 1 ? src : (f3 & 3) == 2 ? old | src : old & ~src;
        if (we) csr_put(i, nv);
        wr(old);
      }
      break;
    default:
      // not a major opcode of the implemented set
      except(s, 2, I);
      return s;
    }
    pc = np;
    s.next_pc = np;
    gpr[0] = 0;
    return s;
  }
  bool sc_force_fail = false, sc_force_ok = false;

  // ------------------------------------------------------------- interrupts
  struct Irq { bool to_s; uint32_t code; };
  // interrupts pending and enabled now given device-driven mip bits, the one to take first
  std::vector<Irq> takeable(uint32_t dev_bits) const {
    std::vector<Irq> v;
    uint32_t p = ((c_mip & ~hw_mip) | (dev_bits & hw_mip)) & c_mie;
    bool m_en = priv < 3 || (c_mstatus & 8);
    bool s_en = priv < 1 || (priv == 1 && (c_mstatus & 2));
    const uint32_t mb[3] = {11, 3, 7}, sb[3] = {9, 1, 5}; // architected priority
    if (m_en)
      for (uint32_t k : mb)
        if ((p >> k & 1) && !(c_mideleg >> k & 1)) v.push_back({false, k});
    if (!v.empty()) return v; // machine-level interrupts come first
    if (s_en)
      for (int j = 0; j < 3; j++)
        if ((p >> sb[j] & 1) || ((p >> mb[j] & 1) && (c_mideleg >> mb[j] & 1)))
          v.push_back({true, sb[j]});
    return v;
  }
  Step take_interrupt(Irq q) {
    Step s;
    s.pc = pc;
    enter_trap(s, true, q.code, 0, q.to_s);
    return s;
  }
};

} // namespace gold
