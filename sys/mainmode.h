// The whole simulator, started through its own main(): image and checkpoint
// loading, fast-forward, reference-only runs and commit limits.
#include "refcpu_api.h"
#include "report.h"
#include "cli.h"
#include <zlib.h>

extern RefCpuContext *vp_ref_ctx; // the reference the simulator last created
static uint64_t ref_steps;
static std::string zero_gz; // 16 MiB of zeros, compressed

// device state the simulator does not carry from the reference to the core
static bool devices_moved() { return G->timer_cmp || G->timer_off || G->uart_irq || G->dma_irq || (G->c_mip & gold::B_MEIP); }
static void first_commit() {
  G->hw_mip = gold::B_MTIP | gold::B_MEIP;
  if (!commits && devices_moved()) finish(ST_DOMAIN, "domain", "timer or interrupt source set before the switch");
}
static void stop_run() {
  if (!R->status && commits + ref_steps > 20000) finish(ST_DOMAIN, "domain", "program does not end");
  if (R->status) longjmp(stop_jmp, 1);
}

// one instruction (or interrupt entry) of the reference while it runs ahead
static void ref_step() {
  ref_steps++;
  R->injected = ref_steps;
  RefCpuState t{};
  refcpu_get_state(vp_ref_ctx, &t);
  if (ended) { finish(ST_BAD, "runs-on", "reference executed another instruction after the program ended"); stop_run(); }
  G->hw_mip = gold::B_MTIP; // the interpreter's external-interrupt bit is an ordinary one
  update_levels();
  uint32_t bits = (mtip_level ? (uint32_t)gold::B_MTIP : 0) | (meip_level ? (uint32_t)gold::B_MEIP : 0), pa, I = 0;
  {
    std::string d = G->domain;
    gold::Cov c = G->cov;
    if (!(G->pc & 3) && G->translate(G->pc, 0, pa)) I = G->rw(pa);
    G->domain = d;
    G->cov = c;
  }
  auto q = G->takeable(bits);
  gold::Step s;
  bool irq = !q.empty() && I != gen::EBREAK && t.csr[q[0].to_s ? gold::I_SCAUSE : gold::I_MCAUSE] == (0x80000000u | q[0].code) && t.csr[q[0].to_s ? gold::I_SEPC : gold::I_MEPC] == G->pc;
  uint32_t rd = I >> 7 & 31;
  G->mmio_override_valid = true;
  G->mmio_override = rd ? t.gpr[rd] : 0;
  G->mip_extra = (I & 0x7f) == 0x73 && (I >> 12 & 3) && ((I >> 20) == 0x344 || (I >> 20) == 0x144) ? bits : 0;
  bool is_sc = (I & 0x7f) == 0x2f && (I >> 27) == 3;
  G->sc_force_ok = is_sc && (rd ? t.gpr[rd] == 0 : t.store);
  if (irq) s = G->take_interrupt(q[0]);
  else s = G->step();
  if (!G->domain.empty()) { finish(ST_DOMAIN, "domain", "%s at pc %08x", G->domain.c_str(), s.pc); stop_run(); }
  for (int i = 0; i < 32; i++)
    if (t.gpr[i] != G->gpr[i]) { finish(ST_BAD, "ref-gpr", "reference step #%llu pc=%08x inst=%08x: x%d=%08x, expected %08x", (unsigned long long)ref_steps, s.pc, s.inst, i, t.gpr[i], G->gpr[i]); stop_run(); }
  if (!s.ended && t.pc != s.next_pc) { finish(ST_BAD, "ref-pc", "reference step #%llu pc=%08x inst=%08x: next pc %08x, expected %08x (cause %08x, %08x)", (unsigned long long)ref_steps, s.pc, s.inst, t.pc, s.next_pc, t.csr[gold::I_MCAUSE], t.csr[gold::I_SCAUSE]); stop_run(); }
  if (t.privilege != G->priv && !s.ended) { finish(ST_BAD, "ref-priv", "reference step #%llu pc=%08x: privilege %d, expected %d", (unsigned long long)ref_steps, s.pc, t.privilege, G->priv); stop_run(); }
  if (s.ended) ended = true;
  stop_run();
}

// characters of the program among the simulator's own (ASCII) messages
static std::string program_text(const std::string &t) {
  std::string o;
  for (char ch : t) if (ch & 0x80) o += ch;
  return o;
}

static int memfile(const char *name) { return memfd_create(name, 0); }
static void put(int fd, const void *p, size_t n) { if (write(fd, p, n) != (ssize_t)n) _exit(5); }

static std::string deflate_all(const std::string &in) {
  z_stream z{};
  deflateInit2(&z, 1, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
  std::string out(deflateBound(&z, in.size()) + 64, 0);
  z.next_in = (Bytef *)in.data(); z.avail_in = (uInt)in.size();
  z.next_out = (Bytef *)&out[0]; z.avail_out = (uInt)out.size();
  deflate(&z, Z_FINISH);
  out.resize(out.size() - z.avail_out);
  deflateEnd(&z);
  return out;
}
static uint32_t ram_top(const gen::Case &c) {
  uint32_t top = 0x80001000u;
  for (auto *v : {&c.code, &c.data}) for (auto &w : *v) top = std::max(top, w.first + 4);
  return top;
}
static std::string image(uint32_t n) { return std::string((const char *)G->ram, n); }

// state of the model, in the simulator's checkpoint format
static int write_checkpoint(uint64_t interval, uint32_t ram_used, int64_t damage = 0) {
  std::string h;
  auto raw = [&](const void *p, size_t n) { h.append((const char *)p, n); };
  auto u32 = [&](uint32_t v) { raw(&v, 4); };
  auto u16 = [&](uint16_t v) { raw(&v, 2); };
  u32(0x006d6552u); u16(2); u16(G->priv); u32(0x40000000u); u32(4);
  raw(G->gpr, 128);
  for (int i = 0; i < 21; i++) u32(G->csr_val(i));
  u32(G->pc);
  u32(0); u32(0); u32(0);
  uint8_t b[4] = {0, (uint8_t)G->resv, 0, 0};
  raw(b, 4);
  u32(G->resv_addr);
  raw(&interval, 8);
  int fd = memfile("ckpt");
  const uint32_t unit = 16u << 20;
  uint32_t used = (ram_used + unit - 1) / unit * unit;
  damage_header(damage, h);
  std::string z = deflate_all(damage == 17 || damage == 18 ? h : h + image(used));
  put(fd, z.data(), z.size());
  if (damage == 17 || damage == 18) return fd;
  if (damage == 19) return fd; // ends inside the memory
  for (uint32_t a = used; a < 0x40000000u; a += unit) put(fd, zero_gz.data(), zero_gz.size());
  int range = 0;
  std::string io;
  for (auto &rg : std::vector<std::pair<uint32_t, uint32_t>>{{0, 0x2000}, {0x10000000u, 0x100}, {0x0c000000u, 0x210000}, {0x1fd0e000u, 0x1000}}) {
    uint32_t base = rg.first + (damage == 20 + range ? 0x100 : 0), size = rg.second - (damage == 24 + range && range < 3 ? 4 : 0);
    range++;
    io.append((const char *)&base, 4);
    io.append((const char *)&size, 4);
    std::string bytes(rg.second, 0);
    for (auto &w : G->io) if (w.first >= rg.first && w.first < rg.first + rg.second) memcpy(&bytes[w.first - rg.first], &w.second, 4);
    io += bytes;
  }
  if (damage == 27) io.resize(io.size() - 1);
  if (damage == 28) io.clear();
  z = deflate_all(io);
  if (damage == 29) z.resize(z.size() / 2); // compressed stream cut
  put(fd, z.data(), z.size());
  return fd;
}

// one instruction of the model on its own
static bool model_step(gold::Step &s) {
  G->mmio_override_valid = true;
  G->mmio_override = 0;
  G->mip_extra = gold::B_MTIP;
  G->sc_force_ok = true;
  s = G->step();
  return G->domain.empty() && !s.ended;
}

static const size_t REPORT_MAX = 1 << 18;
static char *report_text; // shared with the parent
static int report_fd = -1;
static uint64_t report_cycles;
static bool report_warm, report_only;
static void after_report() { // runs after the simulator's own exit handler
  fflush(stdout);
  std::string t((size_t)lseek(report_fd, 0, SEEK_END), 0);
  if (pread(report_fd, &t[0], t.size(), 0) < 0) return;
  if (const char *f = getenv("VERIF_REPORT")) { if (FILE *o = fopen(f, "w")) { fputs(t.c_str(), o); fclose(o); } }
  snprintf(report_text, REPORT_MAX, "%s", t.c_str());
  if (R->status != ST_OK || cpu.ctx.exit_reason == ExitReason::NONE || commits < tally_from) return;
  R->status = 0;
  std::string e = report_only ? "" : check_report(t, report_cycles, report_warm);
  if (e.empty()) finish(ST_OK, "ok", "");
  else finish(ST_BAD, "report", "%s", e.c_str());
}

static void run_main(const gen::Case &cc) {
  gen::Case c = cc;
  if (c.get("ffend", 0)) { // fast-forward to about the end of the program
    G->reset_mem();
    G->reset();
    load_case(c, false);
    gold::Step s;
    int64_t n = 1;
    while (n < 5000 && model_step(s)) n++;
    c.p["ff"] = std::max<int64_t>(1, n + c.get("ffend", 0) - 3);
  }
  G->reset_mem();
  G->reset();
  load_case(c, false);
  auto &sc = axi_interconnect::vp_schedule;
  sc.seed = (uint64_t)c.get("seed", 1);
  sc.ready_pct = (uint32_t)c.get("ready", 100);
  sc.lat_min = (uint32_t)c.get("lmin", 1);
  sc.lat_max = (uint32_t)c.get("lmax", 4);
  sc.tail_pct = (uint32_t)c.get("tail", 0);
  sc.tail_max = (uint32_t)c.get("tmax", 0);
  sc.reorder = c.get("reorder", 0) != 0;
  sc.max_outstanding = (uint32_t)c.get("maxout", 8);
  Cli plan;
  bool cli = c.get("cli", 0) != 0;
  if (cli) {
    plan = cli_plan(c);
    c.p["mode"] = plan.mode;
    c.p["ff"] = (int64_t)plan.ff;
    c.p["limit"] = (int64_t)plan.limit;
    c.p["warm"] = plan.mode == 3 ? plan.warm : -1;
    if (plan.expect) c.p["at"] = 0;
  }
  int mode = (int)c.get("mode", 0);
  uint64_t limit = (uint64_t)c.get("limit", 0), interval = (uint64_t)c.get("interval", 0);
  uint32_t top = ram_top(c);
  if (top > 0x81000000u) { finish(ST_DOMAIN, "domain", "image too large for this harness"); return; }
  std::vector<std::string> a = {"simulator"};
  std::string file;
  if (mode == 3) {
    bool lr = false; // optionally go on to the next reservation
    for (int64_t i = 0, n = c.get("at", 0), m = n + c.get("lr", 0); i < n || (i < m && !lr); i++) {
      gold::Step s;
      if (!model_step(s)) { finish(ST_DOMAIN, "domain", "ends before the checkpoint"); return; }
      lr = (s.inst & 0x7f) == 0x2f && (s.inst >> 27) == 2;
    }
    if (devices_moved()) { finish(ST_DOMAIN, "domain", "timer or interrupt source set before the checkpoint"); return; }
    file = "/proc/self/fd/" + std::to_string(write_checkpoint(interval, 0x1000000u, cli ? c.get("tgt", 0) : 0));
    a.insert(a.end(), {"--mode", "ckpt"});
    int64_t w = c.get("warm", -1);
    if (w >= 0) a.insert(a.end(), {"-w", std::to_string(w)});
  } else {
    int fd = memfile("image");
    std::string im = image(top - 0x80000000u);
    put(fd, im.data(), im.size());
    if (cli && c.get("tgt", 0) == 6 && ftruncate(fd, 0x40000001)) _exit(5);
    file = "/proc/self/fd/" + std::to_string(fd);
    if (mode == 1) a.insert(a.end(), {"--mode", "fast", "-f", std::to_string(c.get("ff", 1))});
    if (mode == 2) a.insert(a.end(), {"-m", "ref"});
  }
  if (limit) a.insert(a.end(), {"--max-commit", std::to_string(limit)});
  a.push_back(file);
  if (cli) {
    cli_target(c, plan, file);
    a = plan.args;
    if (plan.nodiff && !plan.expect && mode != 2) plan.expect = 3; // runs, but commits are not observed
  }
  std::vector<char *> av;
  for (auto &x : a) av.push_back(&x[0]);
  av.push_back(nullptr);
  G->uart_out.clear();
  commits = last_commit_cycle = ref_steps = 0;
  static std::ostringstream con;
  auto *keep = std::cout.rdbuf(con.rdbuf());
  signal(SIGALRM, [](int) { finish(ST_BAD, "no-progress", "still running after %llu commits and %llu reference steps; next pc should be %08x", (unsigned long long)commits, (unsigned long long)ref_steps, G->pc); _exit(0); });
  alarm(cli ? 20 : 60);
  bool report = c.get("report", 0) != 0;
  if (report) {
    report_only = c.get("twice", 0) != 0;
    report_fd = memfile("report");
    fflush(stdout);
    dup2(report_fd, 1);
    atexit(after_report);
    report_warm = program_waits = false;
    for (auto &w : c.code) program_waits |= w.second == 0x10500073;
    tally_from = 0;
    if (mode == 3) {
      tally_from = (uint64_t)(c.get("warm", -1) < 0 ? (int64_t)interval : c.get("warm", 0));
      report_warm = tally_from > 0;
    }
  }
  volatile int rc = -1;
  main_exit = cli;
  int j = setjmp(stop_jmp);
  if (!j) rc = vp_sim_main((int)av.size() - 1, av.data());
  else if (j == 2) rc = main_status;
  main_exit = false;
  std::cout.rdbuf(keep);
  R->cycles = (uint64_t)sim_time;
  R->commits = commits + ref_steps;
  R->ended = ended;
  R->axi_r = cpu.axi_interconnect.vp_reads;
  R->axi_w = cpu.axi_interconnect.vp_writes;
  R->mispred = cpu.ctx.perf.cond_mispred_num + cpu.ctx.perf.jalr_mispred_num;
  if (cli) R->injected = (uint64_t)plan.expect;
  if (R->status) return;
  if (cli && (plan.expect == 1 || plan.expect == 2)) {
    if (commits + ref_steps) finish(ST_BAD, "ran", "%s: expected not to run, but %llu instructions were executed", plan.why.c_str(), (unsigned long long)(commits + ref_steps));
    if (plan.expect == 1 && rc == 0) finish(ST_BAD, "accepted", "%s: exit status 0, expected a failure", plan.why.c_str());
    if (plan.expect == 2 && rc != 0) finish(ST_BAD, "help", "help exits with status %d", rc);
    if (plan.expect == 2 && con.str().find("Usage") == std::string::npos && con.str().find("usage") == std::string::npos) finish(ST_BAD, "help", "help prints no usage text");
    finish(ST_OK, "ok", "");
    return;
  }
  if (cli && plan.expect == 3) {
    gold::Step s;
    while (ref_steps < 20000 && model_step(s)) ref_steps++;
    ended = s.ended;
    std::string got = program_text(con.str()), text = program_text(G->uart_out);
    if (!ended || !G->domain.empty()) finish(ST_DOMAIN, "domain", "program does not end");
    if (commits) finish(ST_BAD, "no-diff", "commits are still checked");
    if (!limit && mode == 0 && got != text) finish(ST_BAD, "uart", "console output has %zu characters, expected %zu", got.size(), text.size());
    if (!limit && mode < 2 && cpu.ctx.exit_reason == ExitReason::EBREAK && rc != (int)G->gpr[10]) finish(ST_BAD, "status", "exit status %d, expected %d", rc, (int)G->gpr[10]);
    finish(ST_OK, "ok", "");
    return;
  }
  uint64_t warm = c.get("warm", -1) < 0 ? interval : (uint64_t)c.get("warm", 0), pre = interval - warm;
  if (mode == 3 && !limit) limit = interval;
  uint64_t want = 0; // commits after which the run has to stop
  if (limit) want = mode == 3 ? warm + limit : limit;
  uint64_t done = mode == 2 ? ref_steps : commits;
  if (mode == 1 && ref_steps > (uint64_t)c.get("ff", 1)) finish(ST_BAD, "fast-forward", "fast-forwarded %llu instructions instead of %lld", (unsigned long long)ref_steps, (long long)c.get("ff", 1));
  if (mode == 1 && !ended && ref_steps != (uint64_t)c.get("ff", 1)) finish(ST_BAD, "fast-forward", "fast-forwarded %llu instructions instead of %lld", (unsigned long long)ref_steps, (long long)c.get("ff", 1));
  if (mode == 3 && (ref_steps > pre || (!ended && ref_steps != pre))) finish(ST_BAD, "fast-forward", "reference ran %llu instructions ahead instead of %llu", (unsigned long long)ref_steps, (unsigned long long)pre);
  if (want && done > want + (mode == 2 ? 0 : COMMIT_WIDTH - 1)) finish(ST_BAD, "limit", "%llu instructions committed, limit was %llu", (unsigned long long)done, (unsigned long long)want);
  if (!ended && (!want || done < want)) finish(ST_BAD, "early-exit", "run ended with status %d after %llu commits and %llu reference steps, program has not", rc, (unsigned long long)commits, (unsigned long long)ref_steps);
  std::string got = program_text(con.str()), text = program_text(G->uart_out);
  if (mode == 3 && pre) { if (text.size() < got.size() || text.substr(text.size() - got.size()) != got) finish(ST_BAD, "uart", "console output is not the end of the expected one"); }
  else if (got != text) finish(ST_BAD, "uart", "console output has %zu characters, expected %zu", got.size(), text.size());
  int exp = 0;
  if (ended && mode != 2 && cpu.ctx.exit_reason == ExitReason::EBREAK) exp = (int)G->gpr[10];
  if (rc != exp) finish(ST_BAD, "status", "exit status %d, expected %d", rc, exp);
  finish(ST_OK, "ok", "");
  report_cycles = mode == 2 || !commits ? 0 : (uint64_t)sim_time + 1; // cycles of the core
  con.str("");
  std::cout.rdbuf(con.rdbuf());
  exit(rc); // prints the statistics
}
