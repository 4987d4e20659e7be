// The statistics the simulator prints at the end of a run, held against what
// the independent model saw retire.
#include <cmath>

struct Tally { // what retired in the measured window; hi also counts instructions at which a trap was taken
  uint64_t n = 0, ld = 0, ld_hi = 0, st = 0, st_hi = 0, br = 0, br_hi = 0, jalr = 0, ret = 0, j_hi = 0, alone = 0;
  bool paged = false; // translation or device accesses seen
};
static Tally tally;
static bool program_waits; // contains WFI, which is dispatched on its own even on a wrong path
static uint64_t tally_from; // commits before this one are warmup

static void tally_step(const gold::Step &s, bool interrupt) {
  if (commits <= tally_from) return;
  uint32_t op = s.inst & 0x7f, f5 = s.inst >> 27;
  bool t = s.trap || interrupt, any = interrupt || !s.inst_valid;
  bool ld = any || op == 0x03 || (op == 0x2f && f5 != 3), st = any || op == 0x23 || (op == 0x2f && f5 != 2);
  tally.n++;
  if (any || op == 0x2f || s.inst == 0x10500073) tally.alone++; // dispatched on its own
  if (G->csr_val(gold::I_SATP) >> 31 || !s.inst_valid || s.trap) tally.paged = true;
  if (ld) { tally.ld_hi++; if (!t) tally.ld++; }
  if (st) { tally.st_hi++; if (!t) tally.st++; }
  if (any || op == 0x63) { tally.br_hi++; if (!t) tally.br++; }
  if (any || op == 0x67) {
    tally.j_hi++;
    bool ret = (s.inst >> 7 & 31) == 0 && (s.inst >> 15 & 31) == 1 && (s.inst >> 20) == 0;
    if (!t) (ret ? tally.ret : tally.jalr)++;
  }
}

struct Report {
  std::vector<std::string> lines;
  std::string err;
  explicit Report(const std::string &t) {
    std::string l;
    for (size_t i = 0; i < t.size(); i++) {
      if (t[i] == '\033') { while (i < t.size() && t[i] != 'm') i++; continue; }
      if (t[i] == '\n') { lines.push_back(l); l.clear(); } else l += t[i];
    }
  }
  // numbers after the colon (or sign) of the first line that starts with the label, searching from a section heading
  std::vector<double> nums(const char *section, const char *label) {
    size_t i = 0;
    if (*section) while (i < lines.size() && lines[i].find(section) == std::string::npos) i++;
    for (; i < lines.size(); i++) {
      if (lines[i].compare(0, strlen(label), label)) continue;
      std::vector<double> v;
      const char *p = lines[i].c_str() + strlen(label);
      while (*p) {
        if (isdigit((unsigned char)*p) || (*p == '-' && isdigit((unsigned char)p[1]))) { char *e; v.push_back(strtod(p, &e)); p = e; }
        else if (!strncmp(p, "nan", 3)) { v.push_back(NAN); p += 3; }
        else p++;
      }
      if (!v.empty()) return v;
    }
    fail("no line \"%s\" in the report", label);
    return std::vector<double>(16, 0);
  }
  double one(const char *section, const char *label) { return nums(section, label)[0]; }
  void fail(const char *fmt, ...) {
    if (!err.empty()) return;
    char b[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    err = b;
  }
  void eq(const char *what, double got, double want, double tol = 0) { if (!(fabs(got - want) <= tol)) fail("%s is %.6g, expected %.6g", what, got, want); }
  void in(const char *what, double got, double lo, double hi) { if (!(got >= lo && got <= hi)) fail("%s is %.6g, expected %.6g to %.6g", what, got, lo, hi); }
};

// cycles: simulated cycles of the run; warm: whether a warmup came before the measured window
static std::string check_report(const std::string &text, uint64_t cycles, bool warm) {
  Report r(text);
  double slack = warm ? COMMIT_WIDTH : 0;
  auto h = r.nums("", "sim-time(cycle)=");
  if (h.size() < 4) h.resize(4);
  double n = h[1], cyc = h[0];
  r.eq("committed instructions", n, (double)tally.n);
  r.in("committed loads", h[2], (double)tally.ld, (double)tally.ld_hi);
  r.in("committed stores", h[3], (double)tally.st, (double)tally.st_hi);
  if (warm) r.in("cycles", cyc, 0, (double)cycles);
  else r.eq("cycles", cyc, (double)cycles);
  r.eq("instruction num", r.one("", "instruction num"), n);
  r.eq("cycle num", r.one("", "cycle       num"), cyc);
  if (cyc > 0) r.eq("ipc", r.one("", "ipc"), n / cyc, 1e-6);
  r.in("instructions per cycle", n, 0, (cyc + 1) * COMMIT_WIDTH);
  // data cache
  const char *D = "L1D COUNTER";
  double ini = r.one(D, "L1D_REQ_INITIAL"), all = r.one(D, "L1D_REQ_ALL"), rep = r.one(D, "L1D_REQ_REPLAY");
  r.eq("data-cache requests", all, ini + rep);
  r.eq("data-cache accesses", r.one(D, "dcache access"), ini);
  double dm = r.one(D, "dcache miss"), rr = 0;
  if (n > 0) r.eq("misses per thousand instructions", r.one(D, "L1D MPKI"), dm * 1000 / n, 1e-5);
  if (ini > 0) r.eq("data-cache hit rate", r.one(D, "L1D Hit Rate"), 1 - dm / ini, 1e-6);
  for (const char *k : {"L1D_REPLAY_CONFLICT", "L1D_REPLAY_BANK_CONFLICT", "L1D_REPLAY_MSHR_FULL", "L1D_REPLAY_WAIT_MSHR"}) {
    double v = r.one(D, k);
    rr += v;
    r.eq(k, r.one(k, "  - LOAD") + r.one(k, "  - STORE"), v);
  }
  r.eq("replays by reason", r.one(D, "L1D_REPLAY_REASON_TOTAL"), rr);
  double mi = r.one(D, "MMIO Inst Count");
  r.eq("device accesses", r.one(D, "MMIO Load Count") + r.one(D, "MMIO Store Count"), mi);
  // queues: average and maximum number of entries in use
  auto occ = [&](const char *label, const char *states, double size) {
    auto v = r.nums(D, label), e = r.nums(states, "  Empty");
    if (cyc > 2 && !warm) r.eq(label, v[0], size - e[0], 2e-4 + size / cyc);
    r.in(label, v[0], 0, v[1]);
    r.in(label, v[1], 0, size);
    double sum = 0;
    size_t i = 0;
    while (i < r.lines.size() && r.lines[i].compare(0, strlen(states), states)) i++;
    for (i++; i < r.lines.size() && !r.lines[i].compare(0, 2, "  "); i++) sum += strtod(r.lines[i].c_str() + r.lines[i].find(':') + 1, nullptr);
    if (cyc > 2) r.eq(states, sum, size, 2e-3 + (warm ? size / cyc : 0));
  };
  // a queue entry cannot wait for a device or a translation the program never uses
  for (const char *q : {"LDQ State Avg/Max Occupancy:", "STQ State Avg/Max Occupancy:"}) {
    if (!mi && !warm) r.eq("entries waiting for devices, without device accesses", r.one(q, "  WaitMmioResp"), 0);
    if (!tally.paged && !warm) r.eq("entries with page faults, without translation", r.one(q, "  PageFault"), 0);
  }
  occ("LDQ Avg/Max Occupancy:", "LDQ State Avg/Max Occupancy:", LDQ_SIZE);
  occ("STQ Avg/Max Occupancy:", "STQ State Avg/Max Occupancy:", STQ_SIZE);
  // stores leaving the queue
  const char *Z = "STQ DIAG COUNTER";
  auto is = r.nums(Z, "STQ Issue Total/Init/Repl:");
  r.eq("store requests", is[1] + is[2], is[0]);
  auto ws = r.nums(Z, "STQ Window State Cnts"), hs = r.nums(Z, "STQ Head State Cnts");
  double s1 = 0;
  for (double x : hs) s1 += x;
  r.eq("store-queue head samples", s1, r.one(Z, "STQ Head Samples"));
  (void)ws;
  auto rp = r.nums(Z, "STQ DCache Resp Hit/Repl"), rk = r.nums(Z, "  - replay conflict/mshr_hit/mshr_full:");
  r.eq("store replays by reason", rk[0] + rk[1] + rk[2], rp[1]);
  if (!warm) r.in("stores retired from the queue", r.nums(Z, "STQ Retire Cycles/Total")[1], 0, (double)tally.st_hi);
  // page-table walks
  auto dw = r.nums("PTW/ARB", "DTLB req/grant/resp"), iw = r.nums("PTW/ARB", "ITLB req/grant/resp");
  if (!warm) { r.in("data walks answered", dw[2], 0, dw[0]); r.in("fetch walks answered", iw[2], 0, iw[0]); }
  // instruction cache
  const char *I = "L1I COUNTER";
  double acc = r.one(I, "L1I access"), hit = r.one(I, "L1I hit"), miss = r.one(I, "L1I miss");
  r.eq("instruction-cache accesses", acc, hit + miss);
  r.in("instruction-cache misses", miss, 0, acc + slack);
  double ird = (double)cpu.axi_interconnect.vp_master_reads[axi_interconnect::MASTER_ICACHE];
  if (!warm) r.in("instruction-cache misses", miss, ird - 1, acc); // at least the lines read
  if (acc > 0) r.eq("instruction-cache hit rate", r.one(I, "L1I accuracy"), hit / acc, 1e-6);
  // fetch
  const char *F = "FRONTEND FETCH";
  double per = r.one(F, "avg inst / sim cycle"), pw = r.one(F, "avg inst / ib write cycle");
  if (cyc > 0 && !warm) r.in("instructions fetched", per * cyc, n - 0.0001 * cyc - 1, (cyc + 1) * FETCH_WIDTH);
  if (per > 0) r.in("instructions per fetch", pw, 0.9999, FETCH_WIDTH + 1e-4);
  // nothing is counted more often than the cycles of the window allow
  for (auto &l : r.lines) {
    if (!l.compare(0, 1, "[") || l.find("FAST_DOMAIN") != std::string::npos) continue;
    for (const char *p = l.c_str() + std::min(l.size(), l.find_first_of(":=")); *p;) {
      if (!isdigit((unsigned char)*p)) { p++; continue; }
      char *e;
      double v = strtod(p, &e);
      bool whole = !memchr(p, '.', e - p);
      double rate = l.find("STLF Check") == 0 || l.find("STLF Check") == 3 ? 4096 : 32; // a check is a pair of a load and a store
      if (whole && *e != '%') r.in(l.c_str(), v, 0, (cyc + 4) * rate);
      p = e;
    }
  }
  // branches
  struct { const char *sec; double lo, hi; } br[] = {{"jalr  accuracy", (double)tally.jalr, (double)tally.jalr + (tally.j_hi - tally.jalr - tally.ret)},
                                                     {"br    accuracy", (double)tally.br, (double)tally.br_hi},
                                                     {"ret    accuracy", (double)tally.ret, (double)tally.ret + (tally.j_hi - tally.jalr - tally.ret)}};
  double bn = 0, bm = 0;
  for (auto &b : br) {
    double num = r.one(b.sec, "num"), mis = r.one(b.sec, "mispred"), a = r.one(b.sec, "addr error"), d = r.one(b.sec, "dir  error");
    r.in((std::string(b.sec, 4) + " count").c_str(), num, b.lo - slack, b.hi + slack);
    r.in((std::string(b.sec, 4) + " mispredictions").c_str(), mis, 0, num);
#ifdef VERIF_ORACLE
    r.eq((std::string(b.sec, 4) + " mispredictions with perfect fetch").c_str(), mis, 0);
#endif
    r.eq((std::string(b.sec, 4) + " mispredictions by kind").c_str(), a + d, mis);
    if (num > 0) r.eq((std::string(b.sec, 4) + " accuracy").c_str(), r.one("BPU COUNTER", b.sec), 1 - mis / num, 1e-6);
    bn += num;
    bm += mis;
  }
  if (bn > 0) r.eq("prediction accuracy", r.one("BPU COUNTER", "bpu   accuracy"), 1 - bm / bn, 1e-6);
  // instructions thrown away
  const char *S = "SQUASH COUNTER";
  r.eq("squashed by flush", r.one("squash flush total", "squash flush total"), r.one("squash flush total", "  - from ren") + r.one("squash flush total", "  - from dispatch"));
#ifdef VERIF_ORACLE
  r.eq("squashed by misprediction with perfect fetch", r.one("squash mispred total", "squash mispred total"), 0);
#endif
  r.eq("squashed by misprediction", r.one("squash mispred total", "squash mispred total"), r.one("squash mispred total", "  - from ren") + r.one("squash mispred total", "  - from dispatch"));
  (void)S;
  // why dispatch was not ready
  const char *Q = "RESOURCE STALL";
  double nr = r.one(Q, "dis2ren not ready cycles"), sum = 0;
  for (const char *k : {"  - dis2ren flush/stall", "  - dis2ren rob", "  - dis2ren serialize", "  - dis2ren dispatch", "  - dis2ren older"}) sum += r.one(Q, k);
  r.eq("dispatch not ready, by reason", sum, nr);
  {
    double iq = r.one(Q, "    - dispatch iq total"), det = 0;
    for (const char *k : {"      - iq int", "      - iq ld", "      - iq sta", "      - iq std", "      - iq br"}) det += r.one(Q, k);
    double all = r.one(Q, "    - dispatch ldq") + r.one(Q, "    - dispatch stq") + iq + r.one(Q, "    - dispatch other");
    r.in("full issue queues by queue", det, 0, iq);
    double blocked = r.one(Q, "  - dis2ren dispatch");
    r.in("dispatch blocked by reason", all - (iq - det), program_waits ? 0 : blocked - (double)tally.alone - slack - 2, blocked);
  }
  for (const char *k : {"br id stall cycles", "preg stall cycles", "rob full stall cycles", "iq full stall cycles", "ldq full stall cycles", "stq full stall cycles", "dis2ren not ready cycles"})
    r.in(k, r.one(Q, k), 0, cyc + 1);
  // slot accounting
  const char *T = "Top-Down Analysis (Level 1)*";
  double slots = r.one(T, "Total Slots"), fe = r.one(T, "Frontend Bound"), be = r.one(T, "Backend Bound"), bs = r.one(T, "Bad Speculation"), rt = r.one(T, "Retiring");
  if (!cyc) return r.err; // the core did not run
  r.in("issue slots", slots, cyc * DECODE_WIDTH - (warm ? DECODE_WIDTH : 0), (cyc + (warm ? 1 : 0)) * DECODE_WIDTH);
  r.eq("share of retired slots", rt, n / slots * 100, 0.006);
  r.in("sum of slot shares", fe + be + bs + rt, 99.97, warm ? 1e9 : 100.03);
  double rec = r.one(T, "  - Recovery Total"), pure = r.one(T, "  - Front Pure");
  r.eq("front-end share by reason", rec + pure, fe, 0.03);
  r.eq("recovery share by reason", r.one(T, "  - Recovery Mispred") + r.one(T, "  - Recovery Flush"), rec, 0.03);
  r.eq("fetch share by reason", r.one(T, "  - Fetch Latency") + r.one(T, "  - Fetch Bandwidth"), pure, 0.03);
  if (!warm && ird > 0 && cyc < 5000) r.in("fetch latency share in a run with instruction-cache misses", r.one(T, "  - Fetch Latency"), 0.01, 100);
  double mem = r.one(T, "  - Memory Bound"), core = r.one(T, "  - Core Bound");
  r.eq("back-end share by reason", mem + core, be, 0.03);
  r.eq("memory share by reason", r.one(T, "    - L1 Bound") + r.one(T, "    - Ext Memory Bound"), mem, 0.03);
  r.eq("core share by reason", r.one(T, "    - IQ Bound") + r.one(T, "    - ROB Bound"), core, 0.03);
  const char *U = "Top-Down Analysis (Level 1 - IDU)";
  r.eq("decode slots", r.one(U, "IDU Total Slots"), std::max(1.0, cyc * DECODE_WIDTH));
  r.eq("sum of decode slot shares", r.one(U, "IDU Frontend Bound") + r.one(U, "IDU Backend Bound") + r.one(U, "IDU Bad Speculation") + r.one(U, "IDU Retiring"), 100, 0.03);
  return r.err;
}
