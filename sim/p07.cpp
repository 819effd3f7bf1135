// P07: running a script file is all or nothing under I/O faults.
#include "common.h"

static void plan07(Rng &r, Plan &p) {
  p.cfg["kinds"] = (int64_t) r.below(64);
  p.cfg["rate"] = (int64_t) r.below(3);
  p.cfg["fill"] = r.chance(0.5) ? 0xA5 : 0;
  p.cfg["gc"] = (int64_t) r.below(3);
  int n = (int) r.range(1, 10);
  for (int i = 0; i < n; i++) {
    static const char *K[] = {"run", "run", "run", "load", "again", "missing", "write"};
    p.add(K[r.below(7)], {(int64_t) r.below(4), (int64_t) r.below(1u << 30), r.range(0, 6)});
  }
}
struct SFile { std::vector<Node *> prog; std::string text; bool have = false; };
static void run07(const Plan &p) {
  A.fill = (int) p.get("fill");
  Engine e;
  Model m;
  S.armed = false;
  e.create();
  host_bind_model(m);
  run_prelude(e, m);
  S.armed = true;
  static const double RATE[] = {0.15, 0.5, 0.05};
  static const FK KIND[] = {F_OPEN, F_SEEK, F_TELL, F_READ_SHORT, F_READ_ERR, F_ALLOC};
  for (int i = 0; i < 6; i++) if (p.get("kinds") >> i & 1) S.rate[KIND[i]] = RATE[p.get("rate")];
  S.rate[F_GC] = p.get("gc") == 2 ? 0.1 : 0;
  SFile fs[4];
  int gen = 0;
  auto mkfile = [&](int k, uint64_t seed, int size) {
    GenCfg c;
    c.stmts = size + 1;
    fs[k].prog = gen_program(seed, m, c, strf("g%d", ++gen));
    fs[k].text = print_program(fs[k].prog);
    Rng r(seed);
    if (r.chance(0.3)) { static const size_t B[] = {128, 511, 512, 1024, 4095, 4096, 8192}; size_t b = B[r.below(7)]; std::string pad = "/* padding */"; while (fs[k].text.size() + pad.size() < b) fs[k].text += pad; while (fs[k].text.size() < b) fs[k].text += ' '; }
    else if (r.chance(0.3)) {  // the last byte of the file matters, and its size is a round number
      std::string &t = fs[k].text;
      while (!t.empty() && strchr(" \n;", t.back())) t.pop_back();
      if (!t.empty()) { static const size_t B[] = {64, 512, 1024, 2048, 4096}; size_t b = B[r.below(5)], n = (t.size() + 3 + b - 1) / b * b - t.size(); t = "//" + std::string(n - 3, 'p') + "\n" + t; }
    }
    fs[k].have = true;
    disk::put(strf("s%d.js", k), fs[k].text);
  };
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    int k = (int) op.a[0];
    std::string path = strf("s%d.js", k);
    S.log("%s %s", op.name.c_str(), path.c_str());
    if (op.name == "write") { mkfile(k, (uint64_t) op.a[1], (int) op.a[2]); continue; }
    bool again = op.name == "again";
    if (op.name == "missing") path = strf("nofile%d.js", k);
    // every run gets fresh names, so it is a new program each time
    if (op.name == "run" || op.name == "load" || (again && !fs[k].have)) mkfile(k, (uint64_t) op.a[1], (int) op.a[2]);
    if (op.name == "load") { path = strf("l%d.js", op.id); disk::put(path, fs[k].text); }  // a path not loaded before
    for (int att = 0; att < 2; att++) {
      bool faulty = att == 0;
      uint64_t f0 = 0, f1 = 0;
      for (FK q : KIND) f0 += S.sh->fired[q];
      disk::faults = alloc_faults = alloc_faults_file_open = faulty;
      disk::short_eof = true;
      size_t t0 = e.trace.size();
      std::string before = e.dump_globals();
      uint64_t st0 = S.sh->steps;
      mjs_err_t err;
      mjs_val_t res = mjs_mk_undefined();
      std::string ldsrc = "load('" + path + "');";
      if (op.name == "load") err = e.exec(ldsrc);
      else err = mjs_exec_file(e.m, path.c_str(), &res);
      disk::faults = alloc_faults = false;
      for (FK q : KIND) f1 += S.sh->fired[q];
      if (disk::open_handles()) S.fail("handle-leak", "%d file handles still open after running %s (result %d)", disk::open_handles(), path.c_str(), err);
      bool faulted = f1 != f0;
      if (err != MJS_OK) {
        if (op.name != "missing" && !faulted) S.fail("spurious-error", "running %s failed without any fault: %s | %s", path.c_str(), e.errtext().c_str(), esc(fs[k].text, 1500).c_str());
        if (err != MJS_FILE_READ_ERROR) S.fail("wrong-error", "a failed file read was reported as error %d (%s)", err, e.errtext().c_str());
        if (e.trace.size() != t0) S.fail("partial-run", "a file whose read failed produced %zu events", e.trace.size() - t0);
        if (op.name != "load" && S.sh->steps != st0) S.fail("partial-run", "a file whose read failed executed %llu instructions", (unsigned long long) (S.sh->steps - st0));
        if (e.dump_globals() != before) S.fail("partial-run", "a file whose read failed changed variables");
        S.probe("read_failure_reported");
        if (op.name == "missing") break;
        continue;
      }
      if (op.name == "missing") S.fail("missed-error", "running a missing file reported success");
      m.fuel = 1u << 30;
      m.run(fs[k].prog);
      check_trace(e, m, fs[k].text);
      check_globals(e, m, fs[k].text);
      if (faulted) S.probe("succeeded_despite_fault");
      if (!faulty) S.probe("retry_succeeded");
      // the same names again would be a different program for the model: once is enough
      if (again) mkfile(k, (uint64_t) op.a[1] + 1, (int) op.a[2]);
      break;
    }
    S.sh->ops_done++;
  }
  S.armed = false;
  // the engine is still fully usable
  GenCfg c;
  c.stmts = 4;
  auto prog = gen_program(p.seed, m, c, "gend");
  std::string src = print_program(prog);
  m.fuel = 1u << 30;
  m.run(prog);
  if (e.exec(src) != MJS_OK) S.fail("spurious-error", "a script after file faults failed: %s | %s", e.errtext().c_str(), esc(src, 2000).c_str());
  check_trace(e, m, src);
  check_globals(e, m, src);
  e.destroy();
  if (alloc_stat().live) S.fail("leak", "memory left after destroy: %s", alloc_live_desc().c_str());
  if (disk::open_handles()) S.fail("handle-leak", "handles left after destroy");
}
static Reg reg07("P07", plan07, run07);
