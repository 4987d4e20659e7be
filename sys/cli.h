// Generated command lines and files for the simulator's main(), with the
// outcome the usage text promises.
struct Cli {
  std::vector<std::string> args;
  int expect = 0;     // 0 runs, 1 refused, 2 help
  std::string why;
  int mode = 0;       // 0 run, 1 fast, 2 ref, 3 ckpt
  uint64_t ff = 0, limit = 0, interval = 0;
  int64_t warm = -1;
  bool nodiff = false, ckpt_file = false;
};

static const char *const good_numbers[] = {"1", "2", "7", "40", "150", "600", "007", "0"};
static const char *const bad_numbers[] = {"-1", "-5", " -3", "12x", "x", "", "1e3", "0x10", "99999999999999999999999", "3.5", "--", "-", "1 2", "1,000", "NaN"};

// o<k>: option, v<k>: its value; stop at the first o<k> that is absent
static Cli cli_plan(const gen::Case &c) {
  Cli r;
  auto refuse = [&](const std::string &w) { if (!r.expect) { r.expect = 1; r.why = w; } };
  r.args = {"simulator"};
  for (int k = 0; k < 8; k++) {
    std::string ks = std::to_string(k);
    int64_t o = c.get(("o" + ks).c_str(), 0), v = c.get(("v" + ks).c_str(), 0), form = v / 100;
    v %= 100;
    if (o == 1) {
      static const char *const m[] = {"run", "fast", "ref", "ckpt", "RUN", "", "fas", "check", "runx", "0"};
      std::string x = m[v % 10];
      if (form & 1) r.args.push_back("--mode=" + x); else if (form & 2) { r.args.push_back("--mode"); r.args.push_back(x); } else { r.args.push_back("-m"); r.args.push_back(x); }
      if (v % 10 > 3) refuse("unknown mode '" + x + "'");
      else if (!r.expect) r.mode = (int)(v % 10);
    } else if (o >= 2 && o <= 4) {
      static const char *const l[] = {"--fast-forward", "--warmup", "--max-commit"};
      static const char *const s[] = {"-f", "-w", "-c"};
      bool bad = v >= 50;
      std::string x = bad ? bad_numbers[(v - 50) % 15] : good_numbers[v % 8];
      if (form & 1) r.args.push_back(std::string(l[o - 2]) + "=" + x);
      else { r.args.push_back(form & 2 ? l[o - 2] : s[o - 2]); r.args.push_back(x); }
      if (bad) { refuse("'" + x + "' is not a number"); continue; }
      uint64_t n = strtoull(x.c_str(), nullptr, 10);
      if (o == 4 && !n) refuse("limit 0");
      if (!r.expect) { if (o == 2) r.ff = n; else if (o == 3) r.warm = (int64_t)n; else r.limit = n; }
    } else if (o == 5) {
      r.args.push_back("--no-diff");
      if (!r.expect) r.nodiff = true;
    } else if (o == 6) {
      r.args.push_back(form & 1 ? "--help" : "-h");
      if (!r.expect) { r.expect = 2; r.why = "help"; }
    } else if (o == 7) {
      static const char *const u[] = {"-z", "--bogus", "-x3", "--modes", "--max", "-C", "--fast-forwards", "-q"};
      // an unambiguous beginning of a long option is accepted by getopt
      std::string x = u[v % 8];
      if (x == "--max") { r.args.push_back("--max=5x"); refuse("'5x' is not a number"); }
      else { r.args.push_back(x); refuse("unknown option " + x); }
    }
  }
  // target
  r.interval = (uint64_t)c.get("interval", 0);
  r.ckpt_file = r.mode == 3;
  int64_t t = c.get("tgt", 0);
  if (t == 1 && !r.expect) refuse("no file named");
  if (r.mode == 1 && !r.ff) refuse("fast mode without a count");
  if (t >= 2 && t <= 5) refuse("unreadable file");
  if (t == 6 && r.mode != 3) refuse("image larger than memory");
  if (t >= 10) refuse(r.mode == 3 ? "damaged checkpoint" : "");
  if (t >= 10 && r.mode != 3 && r.expect == 1 && r.why.empty()) r.expect = 0;
  if (r.mode == 3) {
    if (!r.interval && r.warm > 0) refuse("warmup with a zero-interval checkpoint");
    if (!r.interval && !r.limit) refuse("zero-interval checkpoint without a limit");
    if (r.warm >= 0 && (uint64_t)r.warm > r.interval) refuse("warmup longer than the interval");
  }
  // a missing argument is only missing at the very end
  if (t == 1 && c.get("dangling", 0)) {
    static const char *const d[] = {"-m", "-f", "-w", "-c", "--mode", "--fast-forward", "--warmup", "--max-commit"};
    r.args.push_back(d[(c.get("dangling", 0) - 1) % 8]);
    refuse("option without its argument");
  }
  return r;
}

// how the target file of the plan is spelled on the command line
static void cli_target(const gen::Case &c, Cli &r, const std::string &good) {
  int64_t t = c.get("tgt", 0);
  if (t == 1) return;
  if (t == 2) r.args.push_back("/proc/self/fd/9999");
  else if (t == 3) r.args.push_back("/");
  else if (t == 4) r.args.push_back("");
  else if (t == 5) r.args.push_back(good + "/x");
  else {
    size_t at = 1;
    if (c.get("first", 0)) r.args.insert(r.args.begin() + (long)at, good); // before the options
    else r.args.push_back(good);
    if (t == 7) r.args.push_back("/nonexistent"); // only the first file counts
  }
}

// damages a checkpoint: header, size or layout
static void damage_header(int64_t kind, std::string &h) {
  auto w32 = [&](size_t o, uint32_t v) { memcpy(&h[o], &v, 4); };
  uint32_t v;
  memcpy(&v, &h[0], 4);
  if (kind == 10) w32(0, v ^ 1u << 17);
  if (kind == 11) w32(4, 1);        // version
  if (kind == 12) w32(4, 3 | 3 << 16);
  if (kind == 13) w32(8, 0x20000000u);
  if (kind == 14) w32(8, 0);
  if (kind == 15) w32(12, 3);
  if (kind == 16) w32(12, 5);
  if (kind == 17) h.resize(h.size() / 2);
  if (kind == 18) h.clear();
}
