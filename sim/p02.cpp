// P02: values the host owns stay alive, intact and current until disowned.
#include "common.h"

enum { NV = 12 };
static mjs_val_t var[NV];
static int reg[NV];
static MVal mod[NV];

static void plan02(Rng &r, Plan &p) {
  p.cfg["gc"] = (int64_t) r.below(4);
  p.cfg["pre_own"] = r.chance(0.7);
  p.cfg["fill"] = r.chance(0.5) ? 0xA5 : 0;
  static const char *K[] = {"own", "own", "own", "disown", "disown", "take", "fresh", "fresh", "give", "mutate", "copy", "copy", "chunk", "gc", "call", "garbage", "failing", "nested"};
  int n = (int) r.range(6, 40);
  for (int i = 0; i < n; i++) p.add(K[r.below(18)], {(int64_t) r.below(NV), (int64_t) r.below(1u << 30)});
}
static void check_all(Engine &e, Model &m, const char *after) {
  std::vector<std::pair<std::string, mjs_val_t>> ex;
  std::vector<std::pair<std::string, MVal>> mx;
  for (int i = 0; i < NV; i++)
    if (reg[i]) { ex.push_back({strf("owned%d", i), var[i]}); mx.push_back({strf("owned%d", i), mod[i]}); }
  std::string a = e.dump_globals(4000, &ex), b = m.dump_globals(e.skip, 4000, &mx);
  if (a != b) S.fail("owned-value-changed", "after %s: %s", after, first_diff(a, b).c_str());
  S.state(fnvs(a));
}
static void set_fresh(Engine &e, Model &m, int i, uint64_t seed) {
  Rng r(seed);
  switch (r.below(6)) {
    case 0: { std::string s = strf("host string %llu ", (unsigned long long) seed); s.resize(r.below(60), '.'); var[i] = mkstr(e.m, s); mod[i] = MVal::str(s); break; }
    case 1: { var[i] = mjs_mk_object(e.m); mod[i] = m.new_obj(); break; }
    case 2: { var[i] = mjs_mk_array(e.m); mod[i] = m.new_arr(); break; }
    case 3: var[i] = mjs_mk_number(e.m, (double) (seed % 1000)); mod[i] = MVal::num((double) (seed % 1000)); break;
    case 4: var[i] = mjs_mk_null(); mod[i] = MVal::null(); break;
    default: {
      std::string s(r.below(12), 'q');
      var[i] = mkstr(e.m, s);
      mod[i] = MVal::str(s);
    }
  }
}
static void run02(const Plan &p) {
  A.fill = (int) p.get("fill");
  Engine e;
  Model m;
  S.armed = false;
  for (int i = 0; i < NV; i++) { var[i] = mjs_mk_undefined(); reg[i] = 0; mod[i] = MVal(); }
  e.create(false);
  if (!p.get("pre_own")) {
    mjs_val_t stray = mjs_mk_undefined();
    if (mjs_disown(e.m, &stray)) S.fail("disown-result", "releasing a variable of a fresh engine that was never registered reported success");
    S.probe("disown_in_fresh_engine");
  }
  e.own_slots();
  host_bind_model(m);
  run_prelude(e, m);
  S.armed = true;
  static const double GC[] = {0, 0.05, 0.4, 0.01};
  S.rate[F_GC] = GC[p.get("gc")];
  S.rate[F_GC_HOST] = 0.3;
  S.rate[F_GC_HOSTFULL] = 0.1;
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    int i = (int) op.a[0];
    Rng r((uint64_t) op.a[1]);
    S.log("%s %d", op.name.c_str(), i);
    if (op.name == "own") {
      if (!reg[i]) set_fresh(e, m, i, (uint64_t) op.a[1]);
      else if (reg[i] >= 2) continue;
      else S.probe("registered_twice");
      mjs_own(e.m, &var[i]);
      reg[i]++;
    } else if (op.name == "disown") {
      int ret = mjs_disown(e.m, &var[i]);
      if (!!ret != (reg[i] > 0)) S.fail("disown-result", "mjs_disown returned %d for a variable registered %d times", ret, reg[i]);
      if (reg[i] > 0) reg[i]--;
      else S.probe("disown_unregistered");
      if (!reg[i]) var[i] = mjs_mk_undefined();
    } else if (op.name == "take") {
      if (!reg[i]) continue;
      static const char *N[] = {"gz_o0", "gz_s0", "gz_a0", "meth1", "f_add_"};
      const char *n = N[r.below(5)];
      var[i] = e.global(n);
      mod[i] = *m.global(n);
    } else if (op.name == "fresh") {
      if (reg[i]) set_fresh(e, m, i, (uint64_t) op.a[1]);
    } else if (op.name == "copy") {  // two registered variables hold the same value
      int j = r.chance(0.6) ? (i + 1) % NV : (int) r.below(NV);
      if (!reg[i] || i == j) continue;
      if (!reg[j] && r.chance(0.6)) { mjs_own(e.m, &var[j]); reg[j]++; }
      if (!reg[j]) continue;
      var[j] = var[i];
      mod[j] = mod[i];
      S.probe("same_value_twice");
    } else if (op.name == "give") {
      if (!reg[i]) continue;
      std::string n = strf("hv%llu", (unsigned long long) r.below(4));
      mjs_set(e.m, mjs_get_global(e.m), n.c_str(), ~0, var[i]);
      m.setraw(MVal{M_OBJ, 0, "", 0, nullptr}, n, mod[i]);
    } else if (op.name == "mutate") {
      if (!reg[i]) continue;
      int j = (int) r.below(NV);
      if (mod[i].t == M_OBJ && reg[j]) {
        std::string k = strf("k%llu", (unsigned long long) r.below(3));
        mjs_set(e.m, var[i], k.data(), k.size(), var[j]);
        m.setraw(mod[i], k, mod[j]);
      } else if (mod[i].t == M_ARR && reg[j]) {
        mjs_array_push(e.m, var[i], var[j]);
        m.heap[mod[i].ref].el.push_back(mod[j]);
      }
    } else if (op.name == "chunk") {
      GenCfg c;
      c.stmts = 4;
      auto prog = gen_program(r.next(), m, c, strf("g%d", op.id));
      std::string src = print_program(prog);
      m.fuel = 1u << 30;
      m.run(prog);
      if (e.exec(src) != MJS_OK) S.fail("spurious-error", "script failed: %s | %s", e.errtext().c_str(), esc(src, 2000).c_str());
      check_trace(e, m, src);
    } else if (op.name == "gc") mjs_gc(e.m, (int) r.below(2));
    else if (op.name == "call") {
      // the host keeps its own registrations inside a call
      std::string s = strf("t%d", op.id);
      mjs_val_t res = mjs_mk_undefined();
      mjs_own(e.m, &res);
      if (mjs_call(e.m, &res, e.global("mk0"), mjs_mk_undefined(), 2, mjs_mk_number(e.m, 5), mkstr(e.m, s)) != MJS_OK) S.fail("spurious-error", "call failed: %s", e.errtext().c_str());
      mjs_gc(e.m, 1);
      MVal mr = m.call(*m.global("mk0"), MVal(), {MVal::num(5), MVal::str(s)});
      std::string a = e.dump(res), b = m.dump(mr);
      if (a != b) S.fail("owned-value-changed", "result of a call held by the host: %s", first_diff(a, b).c_str());
      if (!mjs_disown(e.m, &res)) S.fail("disown-result", "releasing a registered variable reported that it was not registered");
      if (mjs_disown(e.m, &res)) S.fail("disown-result", "releasing a variable twice reported success twice");
    } else if (op.name == "garbage") {
      int n = (int) r.below(60);
      for (int k = 0; k < n; k++) { mjs_val_t o = mjs_mk_object(e.m); mjs_set(e.m, o, "g", ~0, mkstr(e.m, "garbage string that is long")); }
    } else if (op.name == "failing") {
      static const char *F[] = {"(function() { let x = ['some', 'long garbage string', {a: 1}]; no_such_name(x); })();", "let 5 = ;", "hcall(function() { return null.x; }, {}, 1, 2);", "JSON.parse('{broken');",
        "f_each_(2, function() { return no_such; }, {a: 'user data of a failing callback'});"};
      if (e.exec(F[r.below(5)]) == MJS_OK) S.fail("missed-error", "a failing script reported success");
      if (mjs_exec_file(e.m, "missing.js", nullptr) == MJS_OK) S.fail("missed-error", "running a missing file reported success");
    } else if (op.name == "nested") {
      // a run of registrations and releases in arbitrary order
      std::vector<mjs_val_t> v(r.chance(0.1) ? 90 + r.below(90) : 3 + r.below(6));
      for (auto &x : v) { x = mkstr(e.m, strf("nested %d %zu", op.id, (size_t) (&x - &v[0]))); mjs_own(e.m, &x); if (r.chance(0.3)) mjs_gc(e.m, 0); }
      std::vector<size_t> ord;
      for (size_t k = 0; k < v.size(); k++) ord.insert(ord.begin() + (long) r.below(ord.size() + 1), k);
      for (size_t q = 0; q < ord.size(); q++) {
        mjs_gc(e.m, (int) r.below(2));
        for (size_t w = q; w < ord.size(); w++)
          if (getstr(e.m, v[ord[w]]) != strf("nested %d %zu", op.id, ord[w])) S.fail("owned-value-changed", "an owned string changed to '%s'", esc(getstr(e.m, v[ord[w]])).c_str());
        if (!mjs_disown(e.m, &v[ord[q]])) S.fail("disown-result", "releasing a registered variable reported that it was not registered");
      }
    }
    check_all(e, m, op.name.c_str());
    S.sh->ops_done++;
  }
  S.armed = false;
  mjs_gc(e.m, 1);
  check_all(e, m, "final collection");
  for (int i = 0; i < NV; i++)
    while (reg[i]) { if (!mjs_disown(e.m, &var[i])) S.fail("disown-result", "a registration was lost"); reg[i]--; }
  for (int i = 0; i < NV; i++) if (mjs_disown(e.m, &var[i])) S.fail("disown-result", "a released variable was still registered");
  e.destroy();
}
static Reg reg02("P02", plan02, run02);
