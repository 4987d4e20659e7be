// What each program-level property generates, and what makes a case non-trivial.
#pragma once
#include "../golden/gen.h"
#include "../golden/golden.h"

namespace prof {
using gen::Profile;

inline Profile mk(const char *n, std::map<std::string, int> w) { Profile p; p.name = n; p.w = std::move(w); return p; }

inline const Profile &choose(const std::string &prop, uint64_t s) {
  static std::map<std::string, std::vector<Profile>> all = [] {
    std::map<std::string, std::vector<Profile>> m;
    // C01 register dataflow
    m["C01"] = {mk("alu", {{"alu", 60}, {"mul", 12}, {"div", 8}, {"skip", 3}, {"loop", 2}, {"ld", 3}, {"st", 2}}),
                mk("dep", {{"alu", 40}, {"mul", 15}, {"div", 15}, {"fp", 10}, {"wild", 2}, {"loop", 3}})};
    m["C02"] = {mk("branchy", {{"alu", 20}, {"skip", 14}, {"ifelse", 8}, {"loop", 6}, {"call", 10}, {"ind", 8}, {"wild", 10}, {"ld", 4}, {"st", 3}, {"div", 2}}),
                mk("wild", {{"alu", 14}, {"wild", 24}, {"skip", 10}, {"ind", 6}, {"div", 5}, {"stld", 5}, {"ld", 5}, {"loop", 3}, {"fence", 1}})};
    m["C03"] = {mk("fwd", {{"stld", 24}, {"cst", 14}, {"cld", 14}, {"ld", 8}, {"st", 8}, {"alu", 8}, {"div", 3}, {"skip", 3}, {"loop", 3}, {"wild", 3}}),
                mk("cache", {{"conflict", 20}, {"ld", 14}, {"st", 14}, {"stld", 10}, {"alu", 4}, {"loop", 5}, {"fence", 1}, {"cst", 5}, {"cld", 5}}),
                mk("storm", {{"storm", 20}, {"conflict", 5}, {"stld", 8}, {"alu", 6}, {"ld", 4}, {"st", 6}, {"skip", 3}, {"wild", 3}, {"loop", 2}}),
                mk("mix", {{"conflict", 5}, {"storm", 2}, {"ld", 14}, {"st", 14}, {"stld", 12}, {"alu", 14}, {"loop", 5}, {"amo", 3}, {"wild", 6}, {"fence", 1}, {"skip", 6}})};
    Profile t = mk("trap", {{"alu", 16}, {"ecall", 8}, {"illegal", 8}, {"time", 2}, {"ld", 6}, {"st", 6}, {"stld", 6}, {"skip", 6}, {"wild", 5}, {"csr", 6}, {"div", 3}, {"loop", 3}, {"priv", 5}});
    t.priv = true;
    Profile tv = t;
    tv.name = "trapvm";
    tv.vm = true;
    tv.w["pfault"] = 12;
    tv.w["fetchfault"] = 4;
    m["C04"] = {t, tv, tv};
    Profile v = mk("vm", {{"alu", 8}, {"ld", 10}, {"st", 10}, {"stld", 8}, {"touch", 14}, {"pfault", 8}, {"fetchfault", 2}, {"remap", 9}, {"satp", 4}, {"sfence", 3}, {"skip", 4}, {"wild", 4}, {"loop", 4}, {"priv", 4}, {"mprv", 4}, {"amo", 3}, {"csr", 3}, {"call", 2}});
    v.vm = v.priv = true;
    Profile v2 = mk("vms", {{"alu", 10}, {"touch", 20}, {"remap", 14}, {"satp", 8}, {"sfence", 2}, {"loop", 6}, {"conflict", 4}, {"wild", 6}, {"skip", 6}, {"stld", 6}});
    v2.vm = true;
    m["C05"] = {v, v, v2};
    Profile a = mk("amo", {{"amo", 26}, {"lrsc", 26}, {"stld", 8}, {"ld", 6}, {"st", 8}, {"alu", 10}, {"skip", 5}, {"wild", 5}, {"loop", 4}, {"fence", 1}, {"conflict", 2}});
    Profile av = a;
    av.name = "amovm";
    av.vm = av.priv = true;
    av.w["pfault"] = 6;
    av.w["priv"] = 2;
    m["C06"] = {a, a, av};
    Profile i = mk("irq", {{"alu", 14}, {"irq", 18}, {"pend", 5}, {"ld", 6}, {"st", 6}, {"stld", 6}, {"skip", 6}, {"wild", 4}, {"loop", 5}, {"div", 4}, {"csr", 5}, {"ecall", 2}, {"amo", 3}, {"lrsc", 2}, {"mmio", 3}, {"priv", 4}, {"call", 3}});
    i.irq = i.priv = true;
    i.maxcommit = 1500;
    Profile iv = i;
    iv.name = "irqvm";
    iv.vm = true;
    iv.w["pfault"] = 3;
    iv.w["remap"] = 2;
    iv.w["touch"] = 4;
    m["C07"] = {i, i, iv};
    Profile sm = mk("smc", {{"smc", 18}, {"smcin", 14}, {"alu", 12}, {"fencei", 3}, {"loop", 6}, {"skip", 4}, {"wild", 4}, {"st", 5}, {"ld", 4}, {"call", 4}, {"div", 2}});
    Profile smv = sm;
    smv.name = "smcvm";
    smv.vm = true;
    smv.w["sfence"] = 2;
    smv.w["remap"] = 2;
    m["C08"] = {sm, sm, smv};
    Profile mm = mk("mmio", {{"mmio", 30}, {"alu", 10}, {"ld", 6}, {"st", 8}, {"stld", 5}, {"skip", 5}, {"wild", 6}, {"loop", 4}, {"div", 3}, {"amo", 3}, {"fence", 2}, {"ecall", 2}});
    Profile mv = mm;
    mv.name = "mmiovm";
    mv.vm = true;
    mv.w["remap"] = 3;
    mv.w["touch"] = 4;
    m["C09"] = {mm, mm, mv};
    Profile f = mk("fp", {{"fp", 50}, {"alu", 10}, {"div", 5}, {"mul", 5}, {"ld", 4}, {"st", 4}, {"skip", 4}, {"loop", 2}, {"wild", 3}});
    m["C11"] = {f};
    Profile cs = mk("csr", {{"csr", 36}, {"alu", 14}, {"ecall", 4}, {"illegal", 3}, {"priv", 6}, {"ld", 4}, {"st", 4}, {"skip", 5}, {"wild", 8}, {"div", 4}, {"fence", 1}, {"fencei", 1}});
    cs.priv = true;
    Profile ci = cs;
    ci.name = "csrirq";
    ci.irq = true;
    ci.w["irq"] = 10;
    ci.w["pend"] = 2;
    Profile cv = cs;
    cv.name = "csrvm";
    cv.vm = true;
    cv.w["satp"] = 4;
    cv.w["touch"] = 6;
    cv.w["mprv"] = 4;
    m["C12"] = {cs, ci, cv};
    // C10/C13: everything at once
    Profile all1 = mk("all", {{"alu", 10}, {"mul", 2}, {"div", 3}, {"fp", 3}, {"ld", 6}, {"st", 6}, {"stld", 6}, {"conflict", 3}, {"storm", 1}, {"cld", 3}, {"cst", 3}, {"skip", 6}, {"ifelse", 3}, {"loop", 4}, {"call", 4}, {"ind", 3}, {"wild", 8}, {"amo", 3}, {"lrsc", 3}, {"csr", 3}, {"ecall", 2}, {"illegal", 1}, {"mmio", 3}, {"fence", 1}, {"fencei", 1}, {"smc", 2}, {"priv", 2}});
    all1.priv = true;
    Profile all2 = all1;
    all2.name = "allvm";
    all2.vm = true;
    all2.w["pfault"] = 3;
    all2.w["remap"] = 3;
    all2.w["touch"] = 4;
    all2.w["satp"] = 2;
    Profile all3 = all2;
    all3.name = "allirq";
    all3.irq = true;
    all3.w["irq"] = 6;
    m["C10"] = {all1, all2, all3};
    m["C13"] = {all1, all2};
    // the simulator's own checker: everything the simulator runs
    for (const char *q : {"C01", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12"})
      for (auto &x : m[q]) { m["D01"].push_back(x); m["D02"].push_back(x); }
    // whole-simulator runs: nothing that depends on when a device acts
    for (const char *q : {"C01", "C03", "C04", "C05", "C06", "C10", "C11", "C12"})
      for (auto x : m[q]) {
        x.w["con"] = 5;
        for (const char *z : {"mmio", "irq", "pend", "time"}) x.w.erase(z);
        x.irq = false;
        for (const char *y : {"X01", "X02", "X04", "P01", "P02"}) m[y].push_back(x);
      }
    for (int k = 0; k < 4; k++) // perfect fetch: control flow most of all
      for (const char *q : {"C02", "C08"})
        for (auto x : m[q]) { x.w["con"] = 5; m["X04"].push_back(x); }
    m["X03"] = {m["C01"][0], m["C02"][0]};
    // the reference interpreter: the same programs, fewer of them timing-directed
    m["R01"] = {m["C01"][0], m["C01"][1], m["C02"][0]};
    m["R02"] = {m["C03"][0], m["C06"][0], m["C06"][2]};
    m["R03"] = {t, tv, i, iv, cs, ci, cv};
    m["R04"] = {v, v, v2, av};
    m["R05"] = {f};
    m["R06"] = {mm, mv, i, iv};
    m["R07"] = {all1, all2, all3};
    return m;
  }();
  auto it = all.find(prop);
  auto &v = it == all.end() ? all["C10"] : it->second;
  return v[(s >> 17) % v.size()];
}

// how the whole simulator is started
inline void command_line(gen::Rng &r, std::map<std::string, int64_t> &p) {
  p["cli"] = 1;
  bool bad_opt = r.pct(35);
  int n = (int)r.below(5);
  bool ckpt = false;
  for (int k = 0; k < n; k++) {
    std::string ks = std::to_string(k);
    int64_t o = r.pick({1, 1, 1, 2, 2, 3, 4, 4, 5}), v = r.below(8);
    if (o == 1) { v = r.pick({0, 1, 1, 2, 3, 3}); ckpt = v == 3; if (bad_opt && r.pct(15)) v = 4 + r.below(6); }
    else if (bad_opt && r.pct(30)) v = 50 + r.below(15);
    if (bad_opt && r.pct(15)) o = r.pick({6, 7, 7}), v = r.below(8);
    p["o" + ks] = o;
    p["v" + ks] = v + 100 * r.below(4);
  }
  if (!bad_opt && r.pct(40)) {
    p["tgt"] = r.pick({1, 2, 3, 4, 5, 6, 7});
    if (ckpt && r.pct(75)) p["tgt"] = 10 + r.below(20);
    if (p["tgt"] == 1 && r.pct(50)) p["dangling"] = 1 + r.below(8);
  }
  p["first"] = r.pct(25);
  p["interval"] = r.pct(25) ? 0 : 1 + r.below(200);
  p["at"] = r.below(30);
}

inline void run_mode(const std::string &prop, uint64_t s, std::map<std::string, int64_t> &p) {
  gen::Rng r(s ^ 0x6d0de);
  if (prop == "X03") return command_line(r, p);
  bool ckpt = prop == "X02" || ((prop[0] == 'P' || prop == "X04") && r.pct(prop == "P02" ? 8 : prop == "X04" ? 12 : 25));
  if (prop[0] == 'P' || prop == "X04") p["report"] = 1;
  if (prop == "P02") p["twice"] = 1 + r.below(255);
  if (!ckpt) {
    p["mode"] = prop == "P02" ? r.pick({0, 0, 0, 0, 0, 0, 1, 2}) : r.pick({0, 0, 1, 1, 1, 2});
    p["ff"] = r.pct(20) ? 1 + r.below(8) : 1 + r.below(700);
    if (p["mode"] == 1 && r.pct(20)) p["ffend"] = 1 + r.below(4);
  } else {
    p["mode"] = 3;
    p["at"] = r.below(500);
    p["lr"] = r.pct(40) ? 300 : 0;
    p["interval"] = r.pct(20) ? 0 : r.below(r.pct(50) ? 40 : 400);
    p["warm"] = r.pct(30) ? -1 : p["interval"] ? (int64_t)r.below((uint32_t)p["interval"] + 1) : 0;
  }
  p["limit"] = r.pct(40) || p["mode"] == 3 ? 1 + r.below(600) : 0;
  if (p["mode"] == 3 && p["interval"] && r.pct(30)) p["limit"] = 0;
  if (prop == "P01" && p["mode"] == 3 && r.pct(50)) { // long warmup, short measurement
    p["interval"] = 200 + r.below(1200);
    p["warm"] = p["interval"] - r.below(20);
    p["limit"] = 1 + r.below(6);
    p["at"] = r.below(40);
  }
}

inline bool nontrivial(const std::string &p, const gold::Cov &c, uint64_t commits, uint64_t ar, uint64_t aw, uint64_t mp, uint64_t injected = 0, uint64_t steady = 0) {
  if (p[0] == 'T') return steady > 0;
  (void)aw;
  if (p == "X03") return injected == 1 || commits >= 40; // refused, or ran
  if (commits < 40) return false;
  if (p == "D01" || p[0] == 'X' || p[0] == 'P') return true;
  if (p == "D02") return injected > 2;
  if (p == "C01") return c.alu > 30 && c.muldiv > 3;
  if (p == "C02") return c.br > 5 && mp > 1;
  if (p == "C03") return c.ld > 10 && c.st > 8 && ar > 4;
  if (p == "C04") return c.trap > 1;
  if (p == "C05") return c.walk > 60 && (c.pf > 0 || c.sfence > 1);
  if (p == "C06") return c.amo > 4;
  if (p == "C07") return c.irq > 0;
  if (p == "C08") return c.fencei > 0 && c.st > 1;
  if (p == "C09") return c.mmio > 3;
  if (p == "C11") return c.fp > 8;
  if (p == "C12") return c.csr > 12;
  return c.br > 2 && c.ld > 2 && c.st > 2;
}
} // namespace prof
