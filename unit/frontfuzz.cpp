// Parts of the fetch unit driven through the functions its top level calls.
//   U01  the queues between prediction, instruction cache, checking and the back end
//   U02  recognition of control transfers in fetched code and correction of predictions
#include "../common/driver.h"
#include "../golden/gen.h"
#include "front_IO.h"
#include "front_module.h"
#include "train_IO.h"
#include "predecode.h"
#include "predecode_checker.h"
#include <deque>
#include <memory>

long long sim_time = 0;

// ------------------------------------------------------------- generation
static std::string make(const std::string &prop, uint64_t seed, uint64_t idx, std::string *pn) {
  gen::Rng r(fz::case_seed(prop, seed, idx));
  char b[160];
  std::string o = "case\n";
  *pn = "cycles";
  if (prop == "U01") {
    snprintf(b, sizeof b, "q %d\n", (int)r.below(4));
    o += b;
    int n = 30 + (int)r.below(260);
    uint32_t we = 50, re = 50, clr = r.pick({0, 1, 5, 15}), split = r.pick({0, 20, 60}), mini = r.pick({0, 10, 50});
    for (int i = 0; i < n; i++) {
      if (i % 40 == 0) { we = r.pick({15, 50, 80, 100}); re = r.pick({0, 15, 50, 80, 100}); }
      snprintf(b, sizeof b, "t %d %d %d %d %d %016llx\n", r.pct(we), r.pct(re), r.pct(clr) ? (r.pct(30) ? 2 : 1) : 0, r.pct(mini), r.pct(split), (unsigned long long)r.u32() << 32 | r.u32());
      o += b;
    }
    return o;
  }
  // U02: one fetch group per line
  for (int i = 0; i < 60; i++) {
    uint32_t pc = r.pct(10) ? r.pick({0u, 0xfffffff0u, 0x7ffffff0u, 0x80000000u}) : r.u32() & ~3u;
    snprintf(b, sizeof b, "g %08x %08x %x", pc, r.u32() & ~3u, r.u32() & (r.pct(50) ? r.u32() & r.u32() : ~0u) & 0xffff);
    std::string l = b;
    int pj = (int)r.pick({5, 20, 50});
    l += r.pct(30) ? " 1" : " 0"; // predicted next address: anything, or the right one
    for (int k = 0; k < FETCH_WIDTH; k++) {
      uint32_t x = r.u32(), w;
      if (r.pct(pj)) {
        int q = (int)r.below(8);
        uint32_t far = r.pct(30) ? r.pick({0u, 0x80000000u, 0xfff00000u, 0x7ff00000u, 0x00100000u, 0x80000080u, 0x7e000f80u}) : x;
        if (q < 3) w = (far & ~0x7fu) | 0x6f;
        else if (q < 6) w = (far & ~0x707fu) | 0x63 | r.pick({0u, 1u, 4u, 5u, 6u, 7u}) << 12;
        else w = (x & ~0x707fu) | 0x67;
      } else if (r.pct(20)) w = r.pick({0u, 0x13u, 0x73u, 0x30200073u, 0x10200073u, 0x100fu, 0x0fu, 0xffffffffu, 0x12000073u, 0x2fu, 0x17u, 0x37u});
      else w = (x & ~0x7fu) | r.pick({0x13u, 0x33u, 0x03u, 0x23u, 0x37u, 0x17u, 0x73u, 0x2fu, 0x0fu, 0x53u});
      snprintf(b, sizeof b, " %08x", w);
      l += b;
    }
    o += l + "\n";
  }
  return o;
}

// ------------------------------------------------------------- U01
template <class T> static void put(gen::Rng &r, T &x, int bits) { x = (T)(bits >= 32 ? r.u32() : r.u32() & ((1u << bits) - 1)); }
template <class T, size_t N> static void put(gen::Rng &r, T (&x)[N], int bits) { for (auto &y : x) put(r, y, bits); }
template <class T> static bool same(const T &a, const T &b) { return a == b; }
template <class T, size_t N> static bool same(const T (&a)[N], const T (&b)[N]) { for (size_t i = 0; i < N; i++) if (!same(a[i], b[i])) return false; return true; }

#define META(F) F(alt_pred, alt_pred, 1) F(altpcpn, altpcpn, pcpn_t_BITS) F(pcpn, pcpn, pcpn_t_BITS) F(tage_idx, tage_idx, tage_idx_t_BITS) F(tage_tag, tage_tag, tage_tag_t_BITS) \
  F(sc_used, sc_used, 1) F(sc_pred, sc_pred, 1) F(sc_sum, sc_sum, 15) F(sc_idx, sc_idx, tage_scl_meta_idx_t_BITS) F(loop_used, loop_used, 1) F(loop_hit, loop_hit, 1) F(loop_pred, loop_pred, 1) \
  F(loop_idx, loop_idx, tage_loop_meta_idx_t_BITS) F(loop_tag, loop_tag, tage_loop_meta_tag_t_BITS)
#define PUT(i, o, b) put(r, x.i, b);
#define CMP(i, o, b) if (!same(x.i, y.o)) return #i;

struct FetchQ {
  typedef fetch_address_FIFO_in In; typedef fetch_address_FIFO_out Out; typedef fetch_address_FIFO_read_data Rd; typedef FetchAddrCombOut Req;
  static constexpr int cap = FETCH_ADDR_FIFO_SIZE, reserve = 1;
  static constexpr const char *name = "fetch-address queue";
  static void seq_read(In *i, Rd *r) { fetch_address_FIFO_seq_read(i, r); }
  static void comb(In *i, const Rd *r, Out *o, Rd *n, Req *q) { fetch_address_FIFO_comb_calc(i, r, o, n, q); }
  static void seq_write(const Req *q) { fetch_address_FIFO_seq_write(q); }
  static void fill(gen::Rng &r, In &x) { PUT(fetch_address, , 32) }
  static const char *cmp(const In &x, const Out &y) { CMP(fetch_address, fetch_address, 32) return nullptr; }
  static int valid(const Out &y) { return y.read_valid; }
  static bool mini(In &, bool) { return false; }
  static int dummy(const Out &) { return -1; }
};
struct InstQ {
  typedef instruction_FIFO_in In; typedef instruction_FIFO_out Out; typedef instruction_FIFO_read_data Rd; typedef InstructionCombOut Req;
  static constexpr int cap = INSTRUCTION_FIFO_SIZE, reserve = 0;
  static constexpr const char *name = "instruction queue";
#define F(X) X(fetch_group, instructions, 32) X(pc, pc, 32) X(page_fault_inst, page_fault_inst, 1) X(inst_valid, inst_valid, 1) X(predecode_type, predecode_type, 2) X(predecode_target_address, predecode_target_address, 32) X(seq_next_pc, seq_next_pc, 32)
  static void seq_read(In *i, Rd *r) { instruction_FIFO_seq_read(i, r); }
  static void comb(In *i, const Rd *r, Out *o, Rd *n, Req *q) { instruction_FIFO_comb_calc(i, r, o, n, q); }
  static void seq_write(const Req *q) { instruction_FIFO_seq_write(q); }
  static void fill(gen::Rng &r, In &x) { F(PUT) }
  static const char *cmp(const In &x, const Out &y) { F(CMP) return nullptr; }
#undef F
  static int valid(const Out &y) { return y.FIFO_valid; }
  static bool mini(In &, bool) { return false; }
  static int dummy(const Out &) { return -1; }
};
struct PtabQ {
  typedef PTAB_in In; typedef PTAB_out Out; typedef PTAB_read_data Rd; typedef PtabCombOut Req;
  static constexpr int cap = PTAB_SIZE, reserve = 1;
  static constexpr const char *name = "prediction queue";
#define F(X) X(predict_dir, predict_dir, 1) X(predict_next_fetch_address, predict_next_fetch_address, 32) X(predict_base_pc, predict_base_pc, 32) META(X)
  static void seq_read(In *i, Rd *r) { PTAB_seq_read(i, r); }
  static void comb(In *i, const Rd *r, Out *o, Rd *n, Req *q) { PTAB_comb_calc(i, r, o, n, q); }
  static void seq_write(const Req *q) { PTAB_seq_write(q); }
  static void fill(gen::Rng &r, In &x) { F(PUT) }
  static const char *cmp(const In &x, const Out &y) { F(CMP) return nullptr; }
#undef F
  static int valid(const Out &) { return -1; }
  static bool mini(In &x, bool m) { x.need_mini_flush = m; return m; }
  static int dummy(const Out &y) { return y.dummy_entry; }
};
struct BackQ {
  typedef front2back_FIFO_in In; typedef front2back_FIFO_out Out; typedef front2back_FIFO_read_data Rd; typedef Front2BackCombOut Req;
  static constexpr int cap = FRONT2BACK_FIFO_SIZE, reserve = 0;
  static constexpr const char *name = "queue to the back end";
#define F(X) X(fetch_group, fetch_group, 32) X(page_fault_inst, page_fault_inst, 1) X(inst_valid, inst_valid, 1) X(predict_dir_corrected, predict_dir_corrected, 1) \
  X(predict_next_fetch_address_corrected, predict_next_fetch_address_corrected, 32) X(predict_base_pc, predict_base_pc, 32) META(X)
  static void seq_read(In *i, Rd *r) { front2back_FIFO_seq_read(i, r); }
  static void comb(In *i, const Rd *r, Out *o, Rd *n, Req *q) { front2back_FIFO_comb_calc(i, r, o, n, q); }
  static void seq_write(const Req *q) { front2back_FIFO_seq_write(q); }
  static void fill(gen::Rng &r, In &x) { F(PUT) }
  static const char *cmp(const In &x, const Out &y) { F(CMP) return nullptr; }
#undef F
  static int valid(const Out &y) { return y.front2back_FIFO_valid; }
  static bool mini(In &, bool) { return false; }
  static int dummy(const Out &) { return -1; }
};

template <class Q> static void run_queue(const fz::Lines &l) {
  struct Ent { bool dummy; typename Q::In in; };
  std::deque<std::unique_ptr<Ent>> q;
  uint64_t wr = 0, rd = 0, cleared = 0, through = 0, fullc = 0;
  int cyc = 0;
  auto half = [&](typename Q::In &in, const typename Q::Rd &snap, typename Q::Rd &next, typename Q::Req &req, bool mini) -> bool {
    auto out = std::make_unique<typename Q::Out>();
    memset((void *)out.get(), 0, sizeof(*out));
    Q::comb(&in, &snap, out.get(), &next, &req);
    bool was_empty = q.empty();
    if (in.reset || in.refetch) { cleared += q.size(); q.clear(); was_empty = true; }
    bool w = in.write_enable && !in.reset, r = in.read_enable && !in.reset;
    if (w) {
      auto e = std::make_unique<Ent>();
      e->dummy = false;
      e->in = in;
      q.push_back(std::move(e));
      if (mini) { auto d = std::make_unique<Ent>(); d->dummy = true; q.push_back(std::move(d)); }
      wr++;
    }
    bool pop = r && !q.empty();
    if (Q::valid(*out) >= 0 && (bool)Q::valid(*out) != pop) { FZ_BAD("valid", "cycle %d: %s %s an entry, it holds %zu", cyc, Q::name, Q::valid(*out) ? "delivers" : "does not deliver", q.size()); return false; }
    if (pop) {
      if (Q::dummy(*out) >= 0 && (bool)Q::dummy(*out) != q.front()->dummy) { FZ_BAD("filler", "cycle %d: %s entry is %sa filler, expected otherwise", cyc, Q::name, Q::dummy(*out) ? "" : "not "); return false; }
      const char *f = q.front()->dummy ? nullptr : Q::cmp(q.front()->in, *out);
      if (f) { FZ_BAD("entry", "cycle %d: %s delivers an entry whose %s is not what was written", cyc, Q::name, f); return false; }
      if (was_empty) through++;
      q.pop_front();
      rd++;
    }
    if ((bool)out->empty != q.empty()) { FZ_BAD("empty", "cycle %d: %s reports %s, it holds %zu", cyc, Q::name, out->empty ? "empty" : "not empty", q.size()); return false; }
    bool full = !in.reset && (int)q.size() >= Q::cap - Q::reserve;
    if (full) fullc++;
    if ((bool)out->full != full) { FZ_BAD("full", "cycle %d: %s reports %s, it holds %zu of %d", cyc, Q::name, out->full ? "full" : "not full", q.size(), Q::cap); return false; }
    return true;
  };
  auto cycle = [&](int we, int re, int clr, int mini, int split, uint64_t seed) {
    gen::Rng g(seed);
    auto in = std::make_unique<typename Q::In>();
    auto snap = std::make_unique<typename Q::Rd>(), next = std::make_unique<typename Q::Rd>(), next2 = std::make_unique<typename Q::Rd>();
    auto req = std::make_unique<typename Q::Req>(), req2 = std::make_unique<typename Q::Req>();
    memset((void *)in.get(), 0, sizeof(*in));
    Q::fill(g, *in);
    bool m = Q::mini(*in, mini);
    int have = clr ? 0 : (int)q.size();
    if (have + 1 + (m ? 1 : 0) > Q::cap) we = 0; // the writer respects the space there is
    Q::seq_read(in.get(), snap.get());
    in->reset = clr == 2;
    in->refetch = clr == 1;
    if (!split) {
      in->write_enable = we;
      in->read_enable = re;
      if (!half(*in, *snap, *next, *req, m)) return;
      Q::seq_write(req.get());
    } else { // the way the fetch unit uses it: what leaves first, what arrives later in the cycle
      in->write_enable = 0;
      in->read_enable = re;
      if (!half(*in, *snap, *next, *req, m)) return;
      in->reset = in->refetch = 0;
      in->write_enable = we;
      in->read_enable = 0;
      if (!half(*in, *next, *next2, *req2, m)) return;
      Q::seq_write(req.get());
      Q::seq_write(req2.get());
    }
  };
  cycle(0, 0, 2, 0, 0, 1);
  for (size_t i = 1; i < l.size() && !fz::done(); i++) {
    int we, re, clr, mini, split;
    unsigned long long s;
    if (sscanf(l[i].c_str(), "t %d %d %d %d %d %llx", &we, &re, &clr, &mini, &split, &s) != 6) continue;
    cyc++;
    cycle(we, re, clr, mini, split, s);
    fz::R->work++;
  }
  for (int i = 0; i < 2 * Q::cap && !fz::done() && !q.empty(); i++) { cyc++; cycle(0, 1, 0, 0, 0, 1); }
  fz::R->cnt[0] = wr; fz::R->cnt[1] = rd; fz::R->cnt[2] = cleared; fz::R->cnt[3] = through; fz::R->cnt[4] = fullc;
  fz::R->nontrivial = rd > 10 && (fullc > 0 || cleared > 0 || through > 2);
}

static void run_queues(const fz::Lines &l) {
  int q = -1;
  for (auto &x : l) sscanf(x.c_str(), "q %d", &q);
  if (q == 0) run_queue<FetchQ>(l);
  if (q == 1) run_queue<InstQ>(l);
  if (q == 2) run_queue<PtabQ>(l);
  if (q == 3) run_queue<BackQ>(l);
}

// ------------------------------------------------------------- U02
static int32_t bits(uint32_t w, int hi, int lo) { return (int32_t)(w >> lo & ((1u << (hi - lo + 1)) - 1)); }

static void run_groups(const fz::Lines &l) {
  uint64_t jumps = 0, flush = 0, keep = 0, seq = 0;
  for (size_t i = 1; i < l.size() && !fz::done(); i++) {
    unsigned pc, pn, dirs;
    int right, used = 0;
    if (sscanf(l[i].c_str(), "g %x %x %x %d%n", &pc, &pn, &dirs, &right, &used) != 4) continue;
    const char *p = l[i].c_str() + used;
    std::vector<uint32_t> w;
    unsigned x;
    int m;
    while (sscanf(p, " %x%n", &x, &m) == 1) { w.push_back(x); p += m; }
    w.resize(FETCH_WIDTH, 0x13);
    predecode_checker_in ci;
    memset((void *)&ci, 0, sizeof ci);
    uint32_t want = 0;
    bool found = false, indirect = false;
    uint32_t next = pc + 4u * FETCH_WIDTH;
    for (int k = 0; k < FETCH_WIDTH; k++) {
      uint32_t a = pc + 4u * (unsigned)k, oc = w[k] & 0x7f, t = 0;
      bool taken = false, ind = false;
      if (oc == 0x6f) { taken = true; t = a + (uint32_t)(bits(w[k], 31, 31) * -(1 << 20) + (bits(w[k], 19, 12) << 12) + (bits(w[k], 20, 20) << 11) + (bits(w[k], 30, 21) << 1)); }
      else if (oc == 0x63) { taken = dirs >> k & 1; t = a + (uint32_t)(bits(w[k], 31, 31) * -(1 << 12) + (bits(w[k], 7, 7) << 11) + (bits(w[k], 30, 25) << 5) + (bits(w[k], 11, 8) << 1)); }
      else if (oc == 0x67) { taken = true; ind = true; }
      predecode_in pi{};
      pi.inst = w[k];
      pi.pc = a;
      predecode_read_data rd{};
      PredecodeResult res{};
      predecode_seq_read(&pi, &rd);
      predecode_comb(rd, res);
      auto kind = oc == 0x6f ? PREDECODE_JAL : oc == 0x63 ? PREDECODE_DIRECT_JUMP_NO_JAL : oc == 0x67 ? PREDECODE_JALR : PREDECODE_NON_BRANCH;
      if (res.type != kind) return FZ_BAD("kind", "%08x at %08x is taken for kind %d, it is %d", w[k], a, (int)res.type, (int)kind);
      if ((oc == 0x6f || oc == 0x63) && (uint32_t)res.target_address != t) return FZ_BAD("target", "%08x at %08x goes to %08x, computed %08x", w[k], a, t, (uint32_t)res.target_address);
      if (oc == 0x6f || oc == 0x63 || oc == 0x67) jumps++;
      ci.predecode_type[k] = res.type;
      ci.predecode_target_address[k] = res.target_address;
      ci.predict_dir[k] = dirs >> k & 1;
      if (taken && !found) { found = true; indirect = ind; want = t; }
    }
    ci.seq_next_pc = next;
    if (right && !indirect) pn = found ? want : next;
    ci.predict_next_fetch_address = pn;
    if (!found) want = next;
    if (indirect) want = pn;
    predecode_checker_read_data rd{};
    predecode_checker_out co{};
    predecode_checker_seq_read(&ci, &rd);
    predecode_checker_comb(rd, co);
    bool first = true;
    for (int k = 0; k < FETCH_WIDTH && first; k++) {
      uint32_t oc = w[k] & 0x7f;
      bool t = oc == 0x6f || oc == 0x67 || (oc == 0x63 && (dirs >> k & 1));
      if ((bool)co.predict_dir_corrected[k] != t) return FZ_BAD("direction", "slot %d (%08x, predicted %s) leaves %s", k, w[k], dirs >> k & 1 ? "taken" : "not taken", co.predict_dir_corrected[k] ? "taken" : "not taken");
      first = !t;
    }
    if ((uint32_t)co.predict_next_fetch_address_corrected != want) return FZ_BAD("next", "group at %08x continues at %08x, expected %08x", pc, (uint32_t)co.predict_next_fetch_address_corrected, want);
    if ((bool)co.predecode_flush_enable != (want != pn)) return FZ_BAD("restart", "group at %08x predicted to continue at %08x, does at %08x: fetch is %srestarted", pc, pn, want, co.predecode_flush_enable ? "" : "not ");
    flush += want != pn;
    keep += indirect;
    seq += !found;
    fz::R->work++;
  }
  fz::R->cnt[0] = jumps; fz::R->cnt[1] = flush; fz::R->cnt[2] = keep; fz::R->cnt[3] = seq;
  fz::R->nontrivial = jumps > 10 && flush > 2 && seq > 0;
}

int main(int argc, char **argv) {
  bool u2 = false;
  for (int i = 1; i < argc; i++) u2 |= !strcmp(argv[i], "U02");
  fz::api.counters = u2 ? std::vector<std::string>{"control_transfers", "restarts", "indirect", "sequential"} : std::vector<std::string>{"written", "delivered", "cleared", "passed_through", "full_cycles"};
  fz::api.make = make;
  fz::api.run = [](const std::string &prop, const std::string &t) {
    auto l = fz::split(t);
    if (prop == "U02") run_groups(l); else run_queues(l);
  };
  fz::api.simpler = [](const std::string &l) -> std::string { return l[0] == 'q' ? l : ""; };
  return fz::fuzz_main(argc, argv);
}
