// Case driver shared by the module-level harnesses.  A case is a text; lines after
// the first are its elements.  Every case runs in a forked child, so a crash, an
// exit() or a hang of the code under test is an outcome like any other.
#pragma once
#include "../golden/gen.h"
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace fz {
enum { NONE = 0, OK = 1, BAD = 2, DOMAIN_ = 3 };
static const int NCNT = 32;
struct Out {
  volatile int status;
  char kind[64];
  char msg[1500];
  uint64_t work, nontrivial;
  uint64_t cnt[NCNT]; // measured coverage, named by Api::counters
};
static Out *R;
static bool verbose;

__attribute__((format(printf, 3, 4))) static void finish(int st, const char *kind, const char *fmt, ...) {
  if (R->status) return;
  va_list ap;
  va_start(ap, fmt);
  snprintf(R->kind, sizeof R->kind, "%s", kind);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  R->status = st;
}
#define FZ_BAD(kind, ...) fz::finish(fz::BAD, kind, __VA_ARGS__)
static inline bool done() { return R->status != NONE; }

typedef std::vector<std::string> Lines;
static inline Lines split(const std::string &t) {
  Lines v;
  std::istringstream is(t);
  std::string l;
  while (std::getline(is, l)) v.push_back(l);
  return v;
}
static inline std::string join(const Lines &v) {
  std::string o;
  for (auto &l : v) { o += l; o += '\n'; }
  return o;
}

struct Api {
  std::vector<std::string> counters;
  // text of case number idx
  std::function<std::string(const std::string &prop, uint64_t seed, uint64_t idx, std::string *profile)> make;
  // runs the case in the child: sets R->nontrivial, R->work, R->cnt and calls finish() on failure
  std::function<void(const std::string &prop, const std::string &text)> run;
  // what may replace line i during reduction; empty result: the line may be deleted
  std::function<std::string(const std::string &line)> simpler;
  unsigned cpu_seconds = 60;
};
static Api api;

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static uint64_t fnv(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull; return h; }
static inline uint64_t case_seed(const std::string &prop, uint64_t seed, uint64_t idx, uint64_t attempt = 0) {
  return fnv(prop) ^ (seed * 0x9E3779B97F4A7C15ull) ^ (idx * 0xD1B54A32D192ED03ull) ^ (attempt * 0x2545F4914F6CDD1Dull);
}
static std::string esc(const std::string &s) {
  std::string o;
  for (char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if ((unsigned char)ch < 32 || (unsigned char)ch > 126) o += '?';
    else o += ch;
  }
  return o;
}

static Out run_case(const std::string &prop, const std::string &text, std::string *log = nullptr) {
  memset((void *)R, 0, sizeof *R);
  int mf = memfd_create("log", 0);
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    dup2(mf, 1);
    dup2(mf, 2);
    struct rlimit rl = {api.cpu_seconds, api.cpu_seconds};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    api.run(prop, text);
    finish(OK, "ok", " ");
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  Out r;
  memcpy((void *)&r, (void *)R, sizeof r);
  std::string tail;
  bool crashed = !r.status || (WIFSIGNALED(st) && r.status == OK);
  if (crashed || log) {
    off_t n = lseek(mf, 0, SEEK_END), from = n > 3000 && !log ? n - 3000 : 0;
    tail.resize((size_t)(n - from));
    if (pread(mf, &tail[0], tail.size(), from) < 0) {}
    if (log) *log = tail;
  }
  close(mf);
  if (crashed) {
    r.status = BAD;
    std::string d = tail;
    for (char &ch : d) if ((unsigned char)ch < 32 && ch != '\n') ch = ' ';
    size_t a = d.find("runtime error");
    bool ub = a != std::string::npos;
    if (a == std::string::npos) a = d.find("ERROR: AddressSanitizer");
    bool as = !ub && a != std::string::npos;
    if (a == std::string::npos) a = d.find("ssert");
    if (a != std::string::npos) d = d.substr(a > 100 ? a - 100 : 0, 700);
    if (d.size() > 700) d = d.substr(d.size() - 700);
    if (ub) snprintf(r.kind, sizeof r.kind, "undefined-behaviour");
    else if (as) snprintf(r.kind, sizeof r.kind, "memory-error");
    else if (WIFSIGNALED(st)) snprintf(r.kind, sizeof r.kind, "signal-%d", WTERMSIG(st));
    else snprintf(r.kind, sizeof r.kind, "abort");
    snprintf(r.msg, sizeof r.msg, "code under test terminated (%s %d): %s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), d.c_str());
  }
  return r;
}

static std::string shrink(const std::string &prop, std::string text, const std::string &kind, double budget) {
  double end = now_s() + budget;
  auto still = [&](const Lines &l) { Out r = run_case(prop, join(l)); return r.status == BAD && kind == r.kind; };
  Lines v = split(text);
  for (int round = 0; round < 3; round++) {
    bool any = false;
    for (size_t chunk = std::max<size_t>(1, v.size() / 2);; chunk /= 2) {
      for (size_t i = 1; i < v.size();) {
        if (now_s() > end) return join(v);
        Lines t(v.begin(), v.begin() + (long)i);
        bool ch = false;
        size_t e = std::min(i + chunk, v.size());
        for (size_t k = i; k < e; k++) {
          std::string s = api.simpler ? api.simpler(v[k]) : "";
          if (s != v[k]) ch = true;
          if (!s.empty()) t.push_back(s);
        }
        t.insert(t.end(), v.begin() + (long)e, v.end());
        if (ch && still(t)) {
          any = true;
          bool same = t.size() == v.size();
          v = t;
          if (same) i = e;
        } else
          i = e;
      }
      if (chunk <= 1) break;
    }
    if (!any) break;
  }
  return join(v);
}

struct Shared {
  volatile uint64_t next, bad, cases, domain, nontrivial, work;
  uint64_t cnt[NCNT];
};

static std::string slurp(const std::string &p) {
  std::ifstream f(p);
  std::stringstream s;
  s << f.rdbuf();
  std::string t = s.str(), o;
  for (auto &l : split(t)) if (l.empty() || l[0] != '#') o += l + "\n";
  return o;
}

static int fuzz_main(int argc, char **argv) {
  std::map<std::string, std::string> o;
  for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  auto geti = [&](const char *k, long long d) { return o.count(k) ? atoll(o[k].c_str()) : d; };
  std::string prop = o.count("--prop") ? o["--prop"] : "";
  R = (Out *)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  verbose = o.count("--log");
  if (o.count("--replay")) {
    std::string t = slurp(o["--replay"]), log;
    if (t.empty()) { fprintf(stderr, "cannot read %s\n", o["--replay"].c_str()); return 3; }
    Out r = run_case(prop, t, &log);
    if (verbose) fprintf(stderr, "%s\n", log.c_str());
    printf("{\"status\":%d,\"kind\":\"%s\",\"msg\":\"%s\",\"work\":%llu}\n", r.status, esc(r.kind).c_str(), esc(r.msg).c_str(), (unsigned long long)r.work);
    return r.status == BAD ? 1 : 0;
  }
  if (o.count("--show")) {
    std::string pn;
    printf("%s", api.make(prop, (uint64_t)geti("--seed", 1), (uint64_t)geti("--show", 0), &pn).c_str());
    return 0;
  }
  if (o.count("--shrink")) {
    std::string t = slurp(o["--shrink"]);
    Out r = run_case(prop, t);
    if (r.status != BAD) { fprintf(stderr, "does not fail\n"); return 2; }
    t = shrink(prop, t, r.kind, (double)geti("--budget", 60));
    std::ofstream(o["--out"]) << t;
    r = run_case(prop, t);
    printf("%s: %s\n", r.kind, r.msg);
    return 0;
  }
  uint64_t seed = (uint64_t)geti("--seed", 1), cases = (uint64_t)geti("--cases", 64), first = (uint64_t)geti("--first", 0);
  int jobs = (int)geti("--jobs", 8);
  double tmax = (double)geti("--time", 700);
  uint64_t maxbad = (uint64_t)geti("--maxbad", 3);
  std::string out = o.count("--out") ? o["--out"] : "/tmp/fz";
  mkdir(out.c_str(), 0777);
  Shared *S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = now_s();
  std::vector<pid_t> w;
  for (int j = 0; j < jobs; j++) {
    pid_t p = fork();
    if (p == 0) {
      R = (Out *)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      FILE *f = fopen((out + "/w" + std::to_string(j) + ".txt").c_str(), "w");
      if (!f) _exit(4);
      for (;;) {
        uint64_t i = __sync_fetch_and_add(&S->next, 1);
        if (i >= cases || S->bad >= maxbad || now_s() - t0 > tmax) break;
        std::string pn = "-";
        std::string txt = api.make(prop, seed, first + i, &pn);
        Out r = run_case(prop, txt);
        __sync_fetch_and_add(&S->cases, 1);
        bool nt = r.status != DOMAIN_ && r.nontrivial;
        if (r.status == DOMAIN_) __sync_fetch_and_add(&S->domain, 1);
        __sync_fetch_and_add(&S->nontrivial, nt);
        __sync_fetch_and_add(&S->work, r.work);
        for (int k = 0; k < NCNT; k++) __sync_fetch_and_add(&S->cnt[k], r.cnt[k]);
        fprintf(f, "%llu %s %d %s %016llx %d %llu\n", (unsigned long long)(first + i), pn.c_str(), r.status, r.kind, (unsigned long long)fnv(txt), nt, (unsigned long long)r.work);
        if (r.status == BAD) {
          __sync_fetch_and_add(&S->bad, 1);
          std::string raw = out + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(first + i) + ".raw.case";
          std::ofstream(raw) << txt;
          std::ofstream(raw + ".txt") << r.kind << "\n" << r.msg << "\n";
          fprintf(f, "BAD %s\n", raw.c_str());
        }
        fflush(f);
      }
      fclose(f);
      _exit(0);
    }
    w.push_back(p);
  }
  for (pid_t p : w) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker failed\n"); return 3; } }
  std::ofstream js(out + "/summary.json");
  js << "{\"cases\":" << S->cases << ",\"domain\":" << S->domain << ",\"nontrivial\":" << S->nontrivial << ",\"work\":" << S->work << ",\"bad\":" << S->bad;
  for (size_t k = 0; k < api.counters.size() && k < (size_t)NCNT; k++) js << ",\"" << api.counters[k] << "\":" << S->cnt[k];
  js << ",\"wall\":" << (now_s() - t0) << "}\n";
  return S->bad ? 1 : 0;
}
} // namespace fz
