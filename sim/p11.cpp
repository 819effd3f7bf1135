// P11: engine instances in one process do not influence each other.
#include <algorithm>
#include <pthread.h>
#include <unistd.h>
#include "common.h"

static const char *LIB11 = "let lib_n = (typeof(lib_n) === 'number' ? lib_n : 0) + 1;\nlet lib_f = function(a) {\n  return a + lib_n;\n};\n";
typedef int (*Cb11)(int, void *);
struct Ctx11;
static thread_local Ctx11 *tl_ctx;
struct Ctx11 {
  Engine e;
  Model m;
  int idx = 0, made = 0;
  bool insync = true;                          // the model still follows the engine
  std::vector<std::pair<Cb11, void *>> cbs;
  std::vector<std::pair<Cb11, void *>> pend;   // registered while a script runs
  uint64_t ops = 0, fail_at = 0;               // instructions run in the current action; which one fails
  std::set<std::string> own_names;
  mjs_val_t held[3];
  bool has[3] = {};
  const char *errp = nullptr;                  // what the engine last said about its error
  std::string errs;
};
struct Act {
  int op, eng, round;
  std::string kind, src, fn, path;
  std::vector<std::pair<char, std::string>> args;
  uint64_t fail_at = 0;
  int64_t x = 0;
  // what it does when the engine is alone
  std::string rep, val, state;
  std::vector<std::string> trace;
  uint64_t ops = 0;
};
extern "C" {
static int which0(void) { return 100; }
static int which1(void) { return 101; }
static int which2(void) { return 102; }
static int which3(void) { return 103; }
static int which4(void) { return 104; }
static int which5(void) { return 105; }
static char *name_of(char *s) { static thread_local char b[4][64]; static thread_local int k; Ctx11 *c = tl_ctx; if (c && on_host_call) on_host_call(&c->e); char *p = b[k++ % 4]; snprintf(p, 64, "%s of engine %d", s, c->idx); return p; }
struct mg_str11 { const char *p; size_t len; };
static int len11(struct mg_str11 *s) { Ctx11 *c = tl_ctx; if (c && on_host_call) on_host_call(&c->e); unsigned h = 0; for (size_t i = 0; i < s->len; i++) h = (h * 31 + (unsigned char) s->p[i]) % 1000; return (int) (h + s->len % 7); }
static int k11_reg(Cb11 cb, void *ud) { tl_ctx->pend.push_back({cb, ud}); return (int) (tl_ctx->cbs.size() + tl_ctx->pend.size()); }
}
static void *resolver11(void *h, const char *n) {
  // the same name means something else in every engine
  static int (*const W[])(void) = {which0, which1, which2, which3, which4, which5};
  if (!strcmp(n, "f_which")) return (void *) W[tl_ctx->idx];
  if (!strcmp(n, "f_name")) return (void *) name_of;
  if (!strcmp(n, "f_len")) return (void *) len11;
  if (!strcmp(n, "f_odd")) return tl_ctx->idx % 2 ? (void *) W[tl_ctx->idx] : nullptr;
  return strcmp(n, "f_keepcb") ? host_dlsym(h, n) : (void *) k11_reg; }
static const char *PRE11 =
  "let f_keepcb_ = ffi('int f_keepcb(int (*)(int, userdata), userdata)');\n"
  "let ev_n = 0;\nlet ev_a = function(i, u) {\n  ev_n = ev_n + i;\n  emit(ev_n);\n  return u.k + i;\n};\n"
  "let ev_b = function(i, u) {\n  emit('event b');\n  if (i === 3) {\n    u.q.r.s();\n  }\n  return 5;\n};\n"
  "f_keepcb_(ev_a, {k: 10});\nf_keepcb_(ev_b, {k: 20});\n";

// the same work in every engine, with values of its own in each; @ is the engine's number, # varies
static const char *DENSE[] = {
  "let s = ''; for (let i = 0; i < 12; i++) { s = s + JSON.stringify(i * 1000 + @ * 7 + 0.5) + ':'; } emit(s); let o = {}; for (let i = 0; i < 9; i++) { o[i * 1000 + @ + 0.25] = i; o[@ * 10 + i] = o[(i - 1) * 1000 + @ + 0.25]; } emit(o);",
  "let a = []; for (let i = 0; i < 12; i++) { a[i] = @ * 100 + i; } for (let i = 0; i < 12; i++) { emit(a[i]); } emit(a.length); a.splice(@ + 1, 2); emit(a);",
  "let o = {e: @, t: 'text of @ #', l: [1, @, {q: 'x@'}]}; for (let i = 0; i < 3; i++) { let t = JSON.stringify(o); emit(t); o.n = JSON.parse(t); emit(o.n.l[2].q); o = {e: i, t: t, l: o.n.l}; }",
  "let t = 'a fairly long text for engine number @ with # at its end'; for (let i = 0; i < 8; i++) { emit(t.slice(i, i + 9 + @)); emit(t.indexOf('@')); emit(t.at(i + @)); } emit(t.length);",
  "let f = function(i, u) { ev_n = ev_n + i; return u.v + i; }; for (let i = 0; i < 3; i++) { emit(f_keepcb_(f, {v: @ * 10 + i}) > 0); }",
  "for (let i = 0; i < 6; i++) { emit(f_add_(@ * 10, i)); emit(f_cat_('left @ ' + chr(65 + i), 'right # ' + chr(75 + i))); emit(f_len_('text @ # ' + chr(48 + i))); }",
  "let o = {}; for (let i = 0; i < 8; i++) { hset(o, 'key_@_' + chr(48 + i), {v: 'value @ ' + chr(65 + i)}); } for (let k in o) { emit(k + ':' + o[k].v); } let p = Object.create(o); emit(p['key_@_3'].v);",
  "let o = {id: 'id@', f: function(x, y) { return {n: @, x: x, y: y, me: this.id}; }}; emit(o.f(#, 'y@')); emit(o.f.apply({id: 'other@'}, [@ + 1, o.f('in @', null)])); emit(hcall(o.f, {id: 'host @'}, 'one # @', [2]));",
  "let n = 0; for (let i = 0; i < 10; i++) { if (i === @ + 2) { continue; } n = n + i * (@ + 1); if (n > 60 + #) { break; } emit(n % 7); } emit(n);",
  "let bad = function() { return undefined_@.x.y; }; emit(htry(bad, {}, 1)); emit(htry(function() { let q = {}; return q.x.y@; }, {}, 1)); emit(htry(function() { die('message of @ #'); }, {}, 1));",
  "emit(htry(function() { return ffi('int f_odd()'); }, {}, 1)); let n = ffi('char *f_name(char *)'); for (let i = 0; i < 4; i++) { emit(n('text @ ' + chr(65 + i))); emit(ffi('int f_which()')()); }",
};
static const int NDENSE = sizeof(DENSE) / sizeof(*DENSE);
static std::string dense11(int k, int eng, int64_t x) {
  std::string s;
  for (const char *p = DENSE[k]; *p; p++) { if (*p == '@') s += std::to_string(eng); else if (*p == '#') s += std::to_string(x % 90 + 10); else s += *p; }
  return "(function() { " + s + " })();";
}

static void boot11(Ctx11 &c) {
  bool ar = S.armed;
  S.armed = false;
  Ctx11 *t = tl_ctx;
  tl_ctx = &c;
  c.made++;
  c.insync = true;
  c.e.id = c.idx;
  c.e.create();
  mjs_set_ffi_resolver(c.e.m, resolver11);
  c.m = Model();
  host_bind_model(c.m);
  uint64_t f = c.fail_at;
  c.fail_at = 0;
  run_prelude(c.e, c.m);
  if (c.e.exec(PRE11) != MJS_OK) S.fail("prelude", "prelude failed: %s", c.e.errtext().c_str());
  c.cbs = c.pend;
  c.pend.clear();
  c.fail_at = f;
  for (auto n : {"f_keepcb_", "ev_n", "ev_a", "ev_b"}) c.e.skip.insert(n);
  c.e.trace.clear();
  c.m.trace.clear();
  c.m.trace_eff.clear();
  tl_ctx = t;
  S.armed = ar;
}
static void down11(Ctx11 &c) {
  for (int i = 0; i < 3; i++) if (c.has[i]) { mjs_disown(c.e.m, &c.held[i]); c.has[i] = false; }
  c.cbs.clear();
  c.errp = nullptr;
  c.e.destroy();
}
// carries out an action on an engine and records what it did
static void act11(Ctx11 &c, const Act &a, Act &out) {
  Ctx11 *keep = tl_ctx;
  tl_ctx = &c;
  Engine &e = c.e;
  // what other engines did in between does not touch this one's error text
  if (c.errp && c.errs != c.errp) S.fail("wrong-error", "the error text of engine %d, '%s', became '%s' while only other engines ran", c.idx, esc(c.errs, 300).c_str(), esc(c.errp, 300).c_str());
  c.errp = nullptr;
  e.trace.clear();
  c.ops = 0;
  c.fail_at = a.fail_at;
  mjs_val_t r = mjs_mk_undefined();
  mjs_err_t err = MJS_OK;
  std::string extra;
  if (a.kind == "exec" || a.kind == "dense") err = e.exec(a.src, &r);
  else if (a.kind == "file") { std::string f = strf("prog%d.js", a.eng); disk::put(f, a.src); err = mjs_exec_file(e.m, f.c_str(), &r); }
  else if (a.kind == "load") { disk::put(a.path, a.src); err = e.exec("load('" + a.path + "');\nload('lib11.js');\nemit(lib_f(1));", &r); }
  else if (a.kind == "missing") err = mjs_exec_file(e.m, strf("missing%d.js", a.eng).c_str(), &r);
  else if (a.kind == "syntax") err = e.exec(strf("let z%d = ;", a.eng), &r);
  else if (a.kind == "import") {
    c.fail_at = 0;
    static const char *I[] = {"emit(ffi('int f_which()')());", "let x = ffi('int f_add(int, int)')(1, 2); emit(ffi('int f_which()')());", "htry(function() { return ffi('int f_odd()'); }, {}, 1); emit(ffi('int f_which()')());"};
    err = e.exec(strf("(function() { %s })();", I[a.x % 3]), &r);
    if (e.trace.size() != 1 || e.trace[0] != strf("%d", 100 + c.idx)) S.fail("wrong-function", "engine %d imported a function that returns %s, expected %d", c.idx, e.trace.empty() ? "nothing" : e.trace[0].c_str(), 100 + c.idx);
    err = e.exec("(function() { emit(ffi('int f_odd()')()); })();", &r);
    if ((err == MJS_OK) != (c.idx % 2 == 1)) S.fail("wrong-function", "engine %d %s a function that its resolver %s", c.idx, err ? "could not import" : "imported", c.idx % 2 ? "knows" : "does not know");
  } else if (a.kind == "name") {
    static const char *T[] = {"ab", "x", "abcd", "five5", "a longer text"};
    std::string t = strf("%s%d", T[a.x % 5], c.idx), q = strf("%d%s", c.idx, T[a.x / 5 % 5]);
    err = e.exec(strf("(function() { let f = ffi('char *f_name(char *)'); emit(f('%s') + f_cat_('%s', f('%s'))); })();", t.c_str(), q.c_str(), t.c_str()), &r);
    std::string n = strf("%s of engine %d", t.c_str(), c.idx), want = "'" + n + q + "+" + n + "'";
    if (!a.fail_at && (e.trace.size() != 1 || e.trace[0] != want)) S.fail("wrong-argument", "engine %d: functions that were passed '%s' and '%s' gave %s, expected %s", c.idx, t.c_str(), q.c_str(), e.trace.empty() ? "nothing" : e.trace[0].c_str(), want.c_str());
  } else if (a.kind == "len") {
    std::string t = strf("text number %lld of engine %d %s", (long long) a.x, c.idx, std::string((size_t) (a.x % 40), 'w').c_str());
    err = e.exec(strf("(function() { let s = 0; for (let i = 0; i < 4; i++) { s = s + f_len_('%s' + chr(65 + i)); } emit(s); })();", t.c_str()), &r);
    int want = 0;
    for (int i = 0; i < 4; i++) { std::string q = t + (char) (65 + i); unsigned h = 0; for (unsigned char ch : q) h = (h * 31 + ch) % 1000; want += (int) (h + q.size() % 7); }
    if (!a.fail_at && (e.trace.size() != 1 || e.trace[0] != strf("%d", want))) S.fail("wrong-argument", "engine %d: a function that was passed '%s' and a letter gave %s, expected %d", c.idx, t.c_str(), e.trace.empty() ? "nothing" : e.trace[0].c_str(), want);
  } else if (a.kind == "gc") { c.fail_at = 0; mjs_gc(e.m, 1); }
  else if (a.kind == "recreate") { down11(c); boot11(c); }
  else if (a.kind == "call") {
    std::vector<mjs_val_t> v;
    for (auto &q : a.args) v.push_back(q.first == 'N' ? mjs_mk_number(e.m, 3) : e.global(q.second.c_str()));
    err = mjs_apply(e.m, &r, e.global(a.fn.c_str()), e.global("gz_o0"), (int) v.size(), v.data());
  } else if (a.kind == "event") {
    auto &cb = c.cbs[(size_t) a.x % c.cbs.size()];
    int v = cb.first((int) (a.x / 2 % 5), cb.second);
    extra = strf(" event -> %d", v);
    // a failed callback leaves its error with the engine
    if (e.errtext() != "NO_ERROR") { extra += " " + e.errtext(); mjs_set_errorf(e.m, MJS_OK, NULL); }
  } else if (a.kind == "own") {
    int k = (int) (a.x % 3);
    if (c.has[k]) { extra = " held " + e.dump(c.held[k]); mjs_disown(e.m, &c.held[k]); c.has[k] = false; }
    else {
      c.held[k] = mjs_mk_object(e.m);
      mjs_own(e.m, &c.held[k]);
      c.has[k] = true;
      mjs_set(e.m, c.held[k], "k", ~0, mjs_mk_number(e.m, (double) a.x));
      mjs_val_t s = mkstr(e.m, strf("text held by the host %d %lld", a.eng, (long long) a.x));
      mjs_set(e.m, c.held[k], "s", ~0, s);
    }
  }
  uint64_t n = c.ops;
  c.fail_at = 0;
  std::string rep = err_report(e, err);
  mjs_val_t rr = r;
  mjs_own(e.m, &rr);
  for (auto &x : c.pend) c.cbs.push_back(x);
  c.pend.clear();
  std::string val = (err ? "" : e.dump(rr)) + extra, st = engine_state(e);
  mjs_disown(e.m, &rr);
  out.rep = rep;
  out.val = val;
  out.state = st;
  out.trace = e.trace;
  out.ops = n;
  e.trace.clear();
  c.errp = mjs_strerror(e.m, err);
  c.errs = c.errp ? c.errp : "";
  tl_ctx = keep;
}
static void same11(const Act &a, const Act &b) {
  const char *src = a.src.c_str();
  std::string what = strf("engine %d, %s", a.eng, a.kind.c_str());
  if (a.rep != b.rep) S.fail("wrong-error", "%s reports '%s', alone '%s' | %s", what.c_str(), esc(b.rep, 500).c_str(), esc(a.rep, 500).c_str(), esc(src, 2000).c_str());
  size_t n = std::min(a.trace.size(), b.trace.size());
  for (size_t i = 0; i < n; i++) if (a.trace[i] != b.trace[i]) S.fail("wrong-result", "%s, event %zu: %s | %s", what.c_str(), i, first_diff(b.trace[i], a.trace[i]).c_str(), esc(src, 2500).c_str());
  if (a.trace.size() != b.trace.size()) S.fail("wrong-events", "%s: %zu events, alone %zu | %s", what.c_str(), b.trace.size(), a.trace.size(), esc(src, 2500).c_str());
  if (a.val != b.val) S.fail("wrong-result", "%s: value %s | %s", what.c_str(), first_diff(b.val, a.val).c_str(), esc(src, 2500).c_str());
  if (a.state != b.state) S.fail("wrong-state", "%s: variables %s | %s", what.c_str(), first_diff(b.state, a.state).c_str(), esc(src, 2500).c_str());
  if (a.ops != b.ops) S.fail("wrong-path", "%s: %llu instructions, alone %llu | %s", what.c_str(), (unsigned long long) b.ops, (unsigned long long) a.ops, esc(src, 2500).c_str());
}

// ---------------------------------------------------------------- one thread per engine, one running at a time
struct Sched {
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
  int turn = -1;
  std::vector<int> active;
  void wait(int me) { pthread_mutex_lock(&mu); while (turn != me) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu); }
  void pass(int to) { pthread_mutex_lock(&mu); turn = to; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); }
};
static Sched *sched;
static bool no_yield;
static double yield_rate, mid_rate;
static void maybe_yield(int me, bool mid = false) {
  if (!sched || no_yield || sched->active.size() < 2) return;
  int64_t k = 0;
  if (!S.decide(mid ? F_MID : F_YIELD, mid ? mid_rate : yield_rate, &k, (int64_t) sched->active.size() - 1)) return;
  std::vector<int> o;
  for (int x : sched->active) if (x != me) o.push_back(x);
  int to = o[(size_t) k % o.size()];
  sched->pass(to);
  sched->wait(me);
}
// another engine gets its turn in the middle of an instruction, of parsing, or of anything else
static bool in_nested;
static void mid11() { if (sched && tl_ctx && !in_nested) maybe_yield(tl_ctx->idx, true); }
struct Job { Ctx11 *c; std::vector<const Act *> acts; };
static void *thread11(void *p) {
  Job *j = (Job *) p;
  int me = j->c->idx;
  sched->wait(me);
  for (auto *a : j->acts) {
    Act got;
    act11(*j->c, *a, got);
    same11(*a, got);
    S.sh->ops_done++;
  }
  // hand over for good
  sched->active.erase(std::find(sched->active.begin(), sched->active.end(), me));
  int to = -1;
  if (!sched->active.empty()) { int64_t k = 0; S.decide(F_YIELD, 1.0, &k, (int64_t) sched->active.size()); to = sched->active[(size_t) k % sched->active.size()]; }
  sched->pass(to < 0 ? 1000 : to);
  return nullptr;
}

static void plan11(Rng &r, Plan &p) {
  int ne = (int) r.range(2, 4);
  p.cfg["engines"] = ne;
  p.cfg["gc"] = (int64_t) r.below(4);
  p.cfg["yield"] = (int64_t) r.below(4);
  p.cfg["mid"] = (int64_t) r.below(5);
  p.cfg["nested"] = r.chance(0.5) ? 1 : 0;
  p.cfg["fail"] = (int64_t) r.below(3);
  static const char *K[] = {"exec", "exec", "exec", "file", "file", "load", "call", "call", "event", "event", "import", "import", "name", "name", "len", "len", "own", "gc", "missing", "syntax", "recreate"};
  int n = (int) r.range(3, 16), round = 0;
  for (int i = 0; i < n; i++) {
    if (r.chance(0.25)) round++;
    if (r.chance(0.2)) {  // all engines do the same at once
      round++;
      int64_t k = (int64_t) r.below(NDENSE);
      for (int e = 0; e < ne; e++) p.add("dense", {e, round, (int64_t) r.below(1u << 30), r.chance(0.8) ? k : (int64_t) r.below(NDENSE)});
      continue;
    }
    p.add(K[r.below(21)], {(int64_t) r.below(5), round, (int64_t) r.below(1u << 30), r.range(1, 7)});
  }
}
static void run11(const Plan &p) {
  int ne = (int) p.get("engines");
  bool nested = p.get("nested");
  int total = ne + (nested ? 1 : 0);          // the last one is only used from inside host functions of the others
  disk::put("lib11.js", LIB11);
  S.armed = false;
  S.max_steps_op = 2000000;
  std::vector<std::vector<Act>> acts((size_t) total);
  on_before_op = [](struct mjs *) { if (tl_ctx) tl_ctx->ops++; };
  on_after_op = [](struct mjs *) { return tl_ctx && tl_ctx->fail_at && tl_ctx->ops == tl_ctx->fail_at; };
  // ---- each engine alone
  for (int i = 0; i < total; i++) {
    S.begin_op(100000 + i);
    Ctx11 *c = new Ctx11();
    c->idx = i;
    boot11(*c);
    for (auto &op : p.ops) {
      if (op.a[0] % total != i) continue;
      Rng r((uint64_t) op.a[2]);
      Act a;
      a.op = op.id;
      a.eng = i;
      a.round = (int) op.a[1];
      a.kind = op.name;
      a.x = (int64_t) r.below(1000);
      std::function<void(Model &)> go;
      if (op.name == "exec" || op.name == "file" || op.name == "load") {
        GenCfg g;
        g.stmts = (int) op.a[3];
        g.natural = r.chance(0.4);
        g.bigstr = r.chance(0.3);
        auto prog = gen_program((uint64_t) op.a[2], c->m, g, strf("g%d_", op.id));
        a.src = print_program(prog);
        a.path = strf("l%d_%d.js", i, op.id);
        go = [prog](Model &m) { m.run(prog); };
        if (p.get("fail") && r.chance(p.get("fail") == 1 ? 0.15 : 0.5)) a.fail_at = 1 + r.below(r.chance(0.5) ? 60 : 800);
      } else if (op.name == "dense") {
        a.src = dense11((int) op.a[3] % NDENSE, i, a.x);
        if (p.get("fail") && r.chance(0.1)) a.fail_at = 1 + r.below(200);
      } else if (op.name == "call") {
        GenCfg g;
        Gen gg(r, c->m, g, "zz");
        if (gg.fns.empty()) continue;
        Gen::Fn f = gg.fns[r.below(gg.fns.size())];
        a.fn = f.name;
        std::vector<MVal> ma;
        bool ok = true;
        for (char t : f.sig.substr(0, f.sig.find('>'))) {
          Node *v = gg.var(t);
          if (v) { ma.push_back(*c->m.global(v->s)); a.args.push_back({'V', v->s}); }
          else if (t == 'N') { ma.push_back(MVal::num(3)); a.args.push_back({'N', ""}); }
          else ok = false;
        }
        if (!ok) continue;
        MVal mf = *c->m.global(f.name), self = *c->m.global("gz_o0");
        go = [=](Model &m) { m.call(mf, self, const_cast<std::vector<MVal> &>(ma)); };
        if (p.get("fail") && r.chance(0.2)) a.fail_at = 1 + r.below(100);
      }
      bool failed = false;
      if (go) {
        Model t = c->m;
        t.fuel = 30000;
        t.trace.clear();
        t.trace_eff.clear();
        try { go(t); } catch (MFuel &) { continue; } catch (MErr &) { failed = true; t.scopes.clear(); t.scope_obj.clear(); t.cur_this = MVal(); t.depth = 0; }
        c->m = t;
      }
      Act got;
      act11(*c, a, got);
      a.rep = got.rep;
      a.val = got.val;
      a.state = got.state;
      a.trace = got.trace;
      a.ops = got.ops;
      if (a.fail_at && a.ops >= a.fail_at) c->insync = false;   // an injected failure
      if (go && !failed && c->insync && a.rep.empty() && a.trace.size() >= c->m.trace.size())
        for (size_t k = 0; k < c->m.trace.size(); k++) if (a.trace[k] != c->m.trace[k]) S.fail("wrong-result", "engine %d alone, event %zu: %s | %s", i, k, first_diff(a.trace[k], c->m.trace[k]).c_str(), esc(a.src, 2500).c_str());
      c->m.trace.clear();
      c->m.trace_eff.clear();
      if (op.name == "dense") S.log("dense %d: %s", (int) op.a[3] % NDENSE, a.rep.empty() ? "ok" : esc(a.rep, 200).c_str());
      acts[(size_t) i].push_back(a);
    }
    down11(*c);
    delete c;
  }
  if (alloc_stat().live) S.fail("leak", "memory left after an engine was destroyed: %s", alloc_live_desc().c_str());
  // ---- all together
  static const double GC[] = {0, 0.01, 0.1, 0.5}, Y[] = {0.005, 0.05, 0.4, 1.0};
  S.rate[F_GC] = GC[p.get("gc")];
  S.rate[F_GC_HOST] = p.get("gc") ? 0.1 : 0;
  std::vector<Ctx11 *> C;
  for (int i = 0; i < total; i++) { C.push_back(new Ctx11()); C.back()->idx = i; boot11(*C.back()); }
  yield_rate = Y[p.get("yield")];
  no_yield = false;
  size_t npos = 0;
  in_nested = false;
  static const double M[] = {0, 0.0001, 0.001, 0.01, 0.05};
  mid_rate = M[p.get("mid")];
  sim_point = mid_rate > 0 ? mid11 : nullptr;
  on_before_op = [&](struct mjs *) { if (tl_ctx) { tl_ctx->ops++; if (!in_nested) maybe_yield(tl_ctx->idx); } };
  on_host_call = [&](Engine *) {
    if (!sched || in_nested || !tl_ctx) return;
    if (nested && npos < acts[(size_t) ne].size() && S.decide(F_REENTER, 0.05)) {
      // the host function uses another engine before it returns
      in_nested = true;
      struct mjs *te = tl_engine;
      Act got;
      const Act &a = acts[(size_t) ne][npos++];
      act11(*C[(size_t) ne], a, got);
      same11(a, got);
      tl_engine = te;
      in_nested = false;
      S.probe("engine_used_inside_host_function");
      return;
    }
    maybe_yield(tl_ctx->idx);
  };
  int rounds = p.ops.empty() ? 0 : (int) p.ops.back().a[1] + 1;
  for (int rd = 0; rd < rounds; rd++) {
    S.begin_op(200000 + rd);
    std::vector<Job> jobs;
    Sched sc;
    for (int i = 0; i < ne; i++) {
      Job j;
      j.c = C[(size_t) i];
      for (auto &a : acts[(size_t) i]) if (a.round == rd) j.acts.push_back(&a);
      if (!j.acts.empty()) { jobs.push_back(j); sc.active.push_back(i); }
    }
    if (jobs.empty()) continue;
    S.log("round %d, %zu engines", rd, jobs.size());
    sched = &sc;
    S.armed = true;
    std::vector<pthread_t> th(jobs.size());
    for (size_t i = 0; i < jobs.size(); i++) {
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstacksize(&at, 16 << 20);
      if (pthread_create(&th[i], &at, thread11, &jobs[i])) { fprintf(stderr, "pthread_create failed\n"); _exit(2); }
      pthread_attr_destroy(&at);
    }
    int64_t k = 0;
    S.decide(F_YIELD, 1.0, &k, (int64_t) jobs.size());
    sc.pass(sc.active[(size_t) k % sc.active.size()]);
    for (auto &t : th) pthread_join(t, nullptr);
    S.armed = false;
    sched = nullptr;
    if (jobs.size() > 1) S.probe("engines_interleaved");
    uint64_t h = 7;
    for (auto *c : C) h = fnvs(engine_state(c->e), h);
    S.state(h);
  }
  while (npos < acts[(size_t) total - 1].size() && nested) { Act got; act11(*C[(size_t) ne], acts[(size_t) ne][npos], got); same11(acts[(size_t) ne][npos], got); npos++; }
  // destroy one by one; the others stay as they were
  S.begin_op(300000);
  Rng r(p.seed);
  while (!C.empty()) {
    size_t k = r.below(C.size());
    std::vector<std::string> st;
    for (auto *c : C) st.push_back(engine_state(c->e));
    down11(*C[k]);
    delete C[k];
    C.erase(C.begin() + (long) k);
    st.erase(st.begin() + (long) k);
    for (size_t i = 0; i < C.size(); i++) {
      if (engine_state(C[i]->e) != st[i]) S.fail("wrong-state", "destroying an engine changed another: %s", first_diff(engine_state(C[i]->e), st[i]).c_str());
      mjs_val_t v;
      tl_ctx = C[i];
      if (C[i]->e.exec("let q11 = {a: [1, 'two']}; emit(q11); lib_x = 1;", &v) == MJS_OK || C[i]->e.trace.size() != 1) S.fail("engine-unusable", "a script after another engine's destruction: %s", C[i]->e.errtext().c_str());
      C[i]->e.trace.clear();
      tl_ctx = nullptr;
    }
  }
  sim_point = nullptr;
  on_before_op = nullptr;
  on_after_op = nullptr;
  on_host_call = nullptr;
  if (alloc_stat().live) S.fail("leak", "memory left after destroying all engines: %s", alloc_live_desc().c_str());
  if (disk::open_handles()) S.fail("handle-leak", "handles left after destroying all engines");
}
static Reg reg11("P11", plan11, run11);
