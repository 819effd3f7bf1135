// P01: garbage collection is invisible to scripts.
#include "common.h"

void run_prelude(Engine &e, Model &m) {
  Rng r(1);
  GenCfg c;
  Gen g(r, m, c, "gz");
  auto pre = g.prelude();
  m.run(pre);
  std::string src = print_program(pre);
  if (e.exec(src) != MJS_OK) S.fail("prelude", "prelude failed: %s", e.errtext().c_str());
}
std::string first_diff(const std::string &a, const std::string &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t f = i > 60 ? i - 60 : 0;
  return "engine ..." + esc(a.substr(f, 200), 220) + "... expected ..." + esc(b.substr(f, 200), 220) + "...";
}
void check_trace(Engine &e, Model &m, const std::string &src) {
  size_t n = e.trace.size() < m.trace.size() ? e.trace.size() : m.trace.size();
  for (size_t i = 0; i < n; i++)
    if (e.trace[i] != m.trace[i]) S.fail("wrong-result", "event %zu differs: %s | program: %s", i, first_diff(e.trace[i], m.trace[i]).c_str(), esc(src, 3000).c_str());
  if (e.trace.size() != m.trace.size()) S.fail("wrong-events", "%zu events, expected %zu | program: %s", e.trace.size(), m.trace.size(), esc(src, 3000).c_str());
  e.trace.clear();
  m.trace.clear();
  m.trace_eff.clear();
}
std::string err_report(Engine &e, mjs_err_t err) {
  if (err == MJS_OK) return "";
  char *buf = nullptr;
  size_t len = 0;
  FILE *fp = open_memstream(&buf, &len);
  mjs_print_error(e.m, fp, "", 1);
  fclose(fp);
  std::string s(buf, len);
  free(buf);
  return strf("%d ", err) + s;
}
std::string engine_state(Engine &e) {
  std::vector<std::pair<std::string, mjs_val_t>> x;
  for (int i = 0; i < NSLOT; i++) x.push_back({strf("kept%d", i), e.slot[i]});
  return e.dump_globals(4000, &x);
}
std::string model_state(Engine &e, Model &m) {
  std::vector<std::pair<std::string, MVal>> x;
  for (int i = 0; i < NSLOT; i++) x.push_back({strf("kept%d", i), m.slots_ref < 0 ? MVal() : m.heap[m.slots_ref].el[i]});
  return m.dump_globals(e.skip, 4000, &x);
}
void check_globals(Engine &e, Model &m, const std::string &src) {
  std::string a = engine_state(e), b = model_state(e, m);
  if (a != b) S.fail("wrong-state", "variables differ: %s | program: %s", first_diff(a, b).c_str(), esc(src, 3000).c_str());
  S.state(fnvs(a));
}

static void plan01(Rng &r, Plan &p) {
  p.cfg["gc_mode"] = (int64_t) r.below(6);
  p.cfg["fill"] = r.chance(0.5) ? 0xA5 : 0;
  p.cfg["depth"] = r.range(2, 4);
  p.cfg["mix"] = (int64_t) r.below(8);
  int n = (int) r.range(1, 5);
  for (int i = 0; i < n; i++) p.add("chunk", {(int64_t) r.below(1u << 30), r.range(3, 12), (int64_t) r.below(3)});
}
static void run01(const Plan &p) {
  A.fill = (int) p.get("fill");
  Engine e;
  Model m;
  S.armed = false;
  e.create();
  host_bind_model(m);
  run_prelude(e, m);
  S.armed = true;
  static const double GC[] = {0.003, 0.03, 0.15, 0.5, 1.0, 0.01};
  static const double HG[] = {0.3, 0.5, 0.1, 0.3, 0.0, 0.9};
  int gm = (int) p.get("gc_mode");
  S.rate[F_GC] = GC[gm];
  S.rate[F_GC_HOST] = HG[gm];
  S.rate[F_GC_HOSTFULL] = HG[gm] / 4;
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    GenCfg c;
    c.stmts = (int) op.a[1];
    c.depth = (int) p.get("depth");
    int mix = (int) p.get("mix");
    c.ffi = mix != 1;
    c.json = mix != 2;
    c.bigstr = mix != 3;
    c.gcs = mix >= 2;
    std::string pre = strf("g%d", op.id);
    auto prog = gen_program((uint64_t) op.a[0], m, c, pre);
    std::string src = print_program(prog);
    m.fuel = 1u << 30;
    m.run(prog);
    S.log("chunk %d %zu bytes", op.id, src.size());
    if (S.verbose) printf("%s\n", src.c_str());
    mjs_err_t err = MJS_OK;
    int entry = (int) op.a[2];
    if (entry == 1) {
      std::string f = strf("f%d.js", op.id);
      disk::put(f, src);
      err = mjs_exec_file(e.m, f.c_str(), nullptr);
      S.probe("run_from_file");
    } else if (entry == 2) {
      std::string f = strf("f%d.js", op.id);
      disk::put(f, src);
      err = e.exec("load('" + f + "');\n");
      S.probe("run_by_load");
    } else err = e.exec(src);
    if (err != MJS_OK) S.fail("spurious-error", "script failed: %s | program: %s", mjs_strerror(e.m, err), esc(src, 3000).c_str());
    check_trace(e, m, src);
    check_globals(e, m, src);
    S.sh->ops_done++;
  }
  S.armed = false;
  mjs_gc(e.m, 1);
  check_globals(e, m, "(final collection)");
  e.destroy();
  if (alloc_stat().live) S.probe("left_allocations");
}
static Reg reg01("P01", plan01, run01);
