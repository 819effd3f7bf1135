// P05: a failure at any instruction is contained and leaves the engine usable.
#include "common.h"
using namespace nb;

static void plan05(Rng &r, Plan &p) {
  p.cfg["mode"] = (int64_t) r.below(5);   // 0,1: any instruction; 2: host calls; 3: scripts that fail by themselves; 4: checkpoints, some swallowed by the host
  p.cfg["rate"] = (int64_t) r.below(4);
  p.cfg["gc"] = (int64_t) r.below(3);
  p.cfg["depth"] = r.range(1, 3);
  static const char *K[] = {"exec", "exec", "exec", "file", "load", "call", "call", "hostload", "probe", "gc", "builtin"};
  int n = (int) r.range(2, 9);
  for (int i = 0; i < n; i++) p.add(K[r.below(11)], {(int64_t) r.below(1u << 30), r.range(2, 9)});
}
// what a fresh engine does with small scripts that depend on leftover state
static void probes(Engine &e, int id) {
  bool armed = S.armed;
  S.armed = false;
  e.trace.clear();
  struct { const char *src; int ok; const char *ev; } P[] = {
    {"emit(typeof(this));", 1, "'undefined'"},
    {"let pr_n = 0; for (let i = 0; i < 3; i++) { if (i === 1) { continue; } pr_n = pr_n + i; } emit(pr_n);", 1, "2"},
    {"break;", 0, nullptr},
    {"continue;", 0, nullptr},
    {"return 5;", 0, nullptr},
    {"let pr_f = function(a) { for (let k in {x: 1, y: 2}) { while (true) { if (a > 0) { return a + 1; } break; } } return 0; }; emit(pr_f(4) + pr_f(0 - 1));", 1, "5"},
    {"let pr_o = {v: 7, g: function(x) { return this.v + x; }}; emit(pr_o.g(1) + hcall(pr_o.g, pr_o, 2, 3));", 1, "17"},
    {"emit(typeof(this));", 1, "'undefined'"},
    {"emit(f_add_(2, 3) + f_each_(2, function(i, u) { return i + u.q; }, {q: 10}));", 1, "26"},
  };
  for (auto &x : P) {
    e.trace.clear();
    mjs_val_t res;
    int ok = mjs_exec(e.m, x.src, &res) == MJS_OK;
    if (ok != x.ok) S.fail("engine-unusable", "after a failed run, `%s` %s", x.src, ok ? "succeeded although it is an error" : e.errtext().c_str());
    if (x.ev && (e.trace.size() != 1 || e.trace[0] != x.ev)) S.fail("engine-unusable", "after a failed run, `%s` gave %s, expected %s", x.src, e.trace.empty() ? "nothing" : esc(e.trace[0]).c_str(), x.ev);
    if (!x.ev && !e.trace.empty()) S.fail("engine-unusable", "`%s` emitted something", x.src);
  }
  // the host calls host, imported and script functions
  struct { const char *fn; double want; } C[] = {{"id", 9}, {"f_add_", 13}, {"meth0", 10}};
  for (auto &x : C) {
    mjs_val_t r = mjs_mk_undefined();
    if (mjs_call(e.m, &r, e.global(x.fn), strcmp(x.fn, "meth0") ? mjs_mk_undefined() : e.global("gz_p0"), 2, mjs_mk_number(e.m, 9), mjs_mk_number(e.m, 4)) != MJS_OK)
      S.fail("engine-unusable", "after a failed run, the host's call of %s failed: %s", x.fn, e.errtext().c_str());
    if (!mjs_is_number(r) || mjs_get_double(e.m, r) != x.want) S.fail("engine-unusable", "after a failed run, the host's call of %s returned %s", x.fn, e.dump(r).c_str());
  }
  // a top-level variable lands in the shared scope, the expression's value is the script's value
  mjs_val_t res = mjs_mk_undefined();
  std::string n = strf("pr_%d", id);
  if (mjs_exec(e.m, ("let " + n + " = 41; " + n + " + 1;").c_str(), &res) != MJS_OK || !mjs_is_number(res) || mjs_get_double(e.m, res) != 42)
    S.fail("engine-unusable", "after a failed run, the value of a simple script is %s", e.dump(res).c_str());
  mjs_val_t g = mjs_get(e.m, mjs_get_global(e.m), n.c_str(), ~0);
  if (!mjs_is_number(g) || mjs_get_double(e.m, g) != 41) S.fail("engine-unusable", "after a failed run, a top-level variable did not land in the global scope");
  mjs_del(e.m, mjs_get_global(e.m), n.c_str(), n.size());
  for (const char *d : {"pr_n", "pr_f", "pr_o"}) mjs_del(e.m, mjs_get_global(e.m), d, strlen(d));
  e.trace.clear();
  S.armed = armed;
}
// Finds a point of the model's run that explains the engine's state after a failure.
static void settle(Engine &e, Model &snap, Model &m, const std::function<void(Model &)> &go, const std::string &src) {
  // full run of the model
  Model full = snap;
  full.trace.clear();
  full.trace_eff.clear();
  full.effects = 0;
  full.limit = ~0ull;
  full.fuel = 1u << 30;
  bool own = false;
  try { go(full); } catch (MErr &) { own = true; }
  size_t n = e.trace.size();
  if (n > full.trace.size()) S.fail("effects-after-failure", "%zu events before the failure, but the whole program has only %zu | %s", n, full.trace.size(), esc(src, 2500).c_str());
  for (size_t i = 0; i < n; i++)
    if (e.trace[i] != full.trace[i]) S.fail("wrong-result", "event %zu of a failed run: %s | %s", i, first_diff(e.trace[i], full.trace[i]).c_str(), esc(src, 2500).c_str());
  uint64_t lo = n ? full.trace_eff[n - 1] : 0, hi = n < full.trace.size() ? full.trace_eff[n] - 1 : full.effects;
  std::string a = engine_state(e);
  std::string last;
  for (uint64_t L = lo; L <= hi; L++) {
    Model t = snap;
    t.trace.clear();
    t.trace_eff.clear();
    t.effects = 0;
    t.limit = L;
    t.fuel = 1u << 30;
    try { go(t); } catch (MErr &) {} catch (MStop &) {}
    t.scopes.clear();
    t.scope_obj.clear();
    t.cur_this = MVal();
    t.depth = 0;
    last = model_state(e, t);
    if (last == a) {
      m = t;
      m.limit = ~0ull;
      m.trace.clear();
      m.trace_eff.clear();
      e.trace.clear();
      S.state(fnvs(a));
      return;
    }
  }
  (void) own;
  S.fail("wrong-state", "the variables after the failure are those of no point of the program between its events %zu and %zu (%llu points tried); nearest: %s | %s", n, n + 1,
         (unsigned long long) (hi - lo + 1), first_diff(a, last).c_str(), esc(src, 2200).c_str());
}
static void run05(const Plan &p) {
  Engine e;
  Model m;
  S.armed = false;
  e.create();
  host_bind_model(m);
  run_prelude(e, m);
  if (e.exec("let gz_p0 = {n: 1};") != MJS_OK) S.fail("prelude", "prelude failed");
  e.skip.insert("gz_p0");
  int mode = (int) p.get("mode");
  static const double RO[] = {0.0005, 0.002, 0.008, 0.03}, RH[] = {0.02, 0.05, 0.15, 0.4}, GC[] = {0, 0.03, 0.3};
  if (mode < 2) S.rate[F_FAIL_OP] = RO[p.get("rate")];
  if (mode == 2) { S.rate[F_FAIL_HOST] = RH[p.get("rate")]; e.emit_fails = true; }
  if (mode == 4) { S.rate[F_FAIL_HOST] = RH[p.get("rate")]; host_bind_cp(m, &e); }
  S.rate[F_GC] = GC[p.get("gc")];
  S.rate[F_GC_HOST] = p.get("gc") ? 0.2 : 0;
  S.armed = true;
  int fails = 0;
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    Rng r((uint64_t) op.a[0]);
    S.log("%s", op.name.c_str());
    if (op.name == "gc") { mjs_gc(e.m, 1); check_globals(e, m, "gc"); continue; }
    if (op.name == "builtin") {  // the host itself calls a function of the engine, which fails
      disk::put("bad05.js", "let bad05 = 'text of bad05'; while (true) { for (let k in {a: 1}) { no_such; } }");
      disk::put("syn05.js", "let 5 = ;");
      static const struct { const char *fn, *arg; bool ns; } B[] = {{"load", "nofile.js", true}, {"load", "nofile.js", false}, {"load", "bad05.js", true}, {"load", "syn05.js", true}, {"load", "syn05.js", false},
        {"die", "said the host", false}, {"ffi", "int 5 (", false}, {"ffi", "int no_such_function(int)", false}, {"Object.create", "x", false}, {"JSON.parse", "[1, {", false}, {"load", "nofile.js", true}, {"load", "bad05.js", true}};
      auto &b = B[r.below(12)];
      bool armed = S.armed;
      S.armed = false;
      mjs_val_t f = mjs_get_global(e.m), ns = mjs_mk_object(e.m), res = mjs_mk_undefined(), arg;
      mjs_own(e.m, &ns);
      std::string fn = b.fn;
      size_t dot = fn.find('.');
      if (dot != std::string::npos) { f = e.global(fn.substr(0, dot).c_str()); fn = fn.substr(dot + 1); }
      f = mjs_get(e.m, f, fn.c_str(), ~0);
      arg = mkstr(e.m, b.arg);
      for (int q = (int) r.below(3); q >= 0; q--)
        if (b.ns ? mjs_call(e.m, &res, f, mjs_mk_undefined(), 2, arg = mkstr(e.m, b.arg), ns) == MJS_OK : mjs_call(e.m, &res, f, mjs_mk_undefined(), 1, arg = mkstr(e.m, b.arg)) == MJS_OK)
          S.fail("missed-error", "the host's call of %s('%s') reported success", b.fn, b.arg);
      mjs_disown(e.m, &ns);
      e.trace.clear();
      S.armed = armed;
      probes(e, op.id);
      check_globals(e, m, "failing call of a function of the engine");
      S.probe("host_called_builtin");
      continue;
    }
    if (op.name == "probe") { probes(e, op.id); check_globals(e, m, "probe"); continue; }
    GenCfg c;
    c.stmts = (int) op.a[1];
    c.depth = (int) p.get("depth");
    c.natural = mode == 3;
    c.cps = mode == 4;
    c.bigstr = false;
    std::function<void(Model &)> go;
    std::string src;
    mjs_err_t err;
    uint64_t f0 = tl_fails;
    mjs_val_t res = mjs_mk_undefined();
    std::string want_res;
    Model snap = m;
    if (op.name == "call") {
      // call a function a previous script left behind
      Gen g(r, m, c, "zz");
      if (g.fns.empty()) continue;
      Gen::Fn f = g.fns[r.below(g.fns.size())];
      std::vector<MVal> ma;
      std::vector<mjs_val_t> ea;
      bool ok = true;
      for (char t : f.sig.substr(0, f.sig.find('>'))) {
        Node *v = g.var(t);
        if (v) { ma.push_back(*m.global(v->s)); ea.push_back(e.global(v->s.c_str())); }
        else if (t == 'N') { ma.push_back(MVal::num(3)); ea.push_back(mjs_mk_number(e.m, 3)); }
        else ok = false;
      }
      if (!ok) continue;
      MVal mf = *m.global(f.name), self = *m.global("gz_o0");
      {  // the call must end
        Model t = m;
        t.fuel = 30000;
        t.limit = ~0ull;
        if (mode == 4) t.host["cp"] = [](Model &, const MVal &, std::vector<MVal> &a) { return a[0]; };
        try { t.call(mf, self, ma); } catch (MFuel &) { continue; } catch (MErr &) {}
      }
      src = "host call of " + f.name;
      go = [=](Model &x) { MVal v = x.call(mf, self, ma); };
      err = mjs_apply(e.m, &res, e.global(f.name.c_str()), e.global("gz_o0"), (int) ea.size(), ea.data());
      S.probe("entered_by_host_call");
    } else {
      auto prog = gen_program((uint64_t) op.a[0], m, c, strf("g%d", op.id));
      src = print_program(prog);
      if (S.verbose) printf("%s\n", src.c_str());
      go = [prog](Model &x) { x.run(prog); };
      std::string f = strf("f%d.js", op.id);
      disk::put(f, src);
      if (op.name == "exec") err = e.exec(src, &res);
      else if (op.name == "file") err = mjs_exec_file(e.m, f.c_str(), &res);
      else if (op.name == "load") err = e.exec("load('" + f + "');", &res);
      else err = e.exec("let go" + std::to_string(op.id) + " = function(a, b) { return load('" + f + "', global); }; hcall(go" + std::to_string(op.id) + ", {}, 1, 2);", &res);
      if (op.name == "hostload") e.skip.insert("go" + std::to_string(op.id));
    }
    // did the script have to fail?
    bool injected = mode != 4 && tl_fails != f0, natural = false;
    if (!injected) {
      m.fuel = 1u << 30;
      m.trace.clear();
      m.trace_eff.clear();
      try { go(m); }
      catch (MErr &) { natural = true; m.scopes.clear(); m.scope_obj.clear(); m.cur_this = MVal(); m.depth = 0; }
      catch (MDiverged &) { check_trace(e, m, src); S.fail("wrong-result", "the engine passed fewer checkpoints than expected | %s", esc(src, 2500).c_str()); }
      if (e.cppos != e.cplog.size()) S.fail("effects-after-failure", "the engine passed %zu checkpoints, expected %zu | %s", e.cplog.size(), e.cppos, esc(src, 2500).c_str());
    }
    S.log("-> %s", err ? "failed" : "ok");
    if (err == MJS_OK && (injected || natural)) S.fail("missed-error", "a failing run (%s) reported success | %s", injected ? "injected" : "by itself", esc(src, 2500).c_str());
    if (err != MJS_OK && !injected && !natural) S.fail("spurious-error", "script failed: %s | %s", mjs_strerror(e.m, err), esc(src, 2500).c_str());
    if (injected) { settle(e, snap, m, go, src); S.probe("failure_injected"); }
    else { check_trace(e, m, src); check_globals(e, m, src); if (natural) S.probe("failed_by_itself"); }
    if (err != MJS_OK && ++fails <= 6) {
      probes(e, op.id);
      check_globals(e, m, "probe after failure");
    }
    S.sh->ops_done++;
  }
  S.armed = false;
  mjs_gc(e.m, 1);
  probes(e, 1000);
  check_globals(e, m, "(final)");
  e.destroy();
}
static Reg reg05("P05", plan05, run05);
