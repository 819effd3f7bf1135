// P17: work the host starts on the engine inside a call leaves the interrupted script as it was.
#include "common.h"

namespace {
// what the host may do in the middle of a script; `note` records what the nested work sees
enum WKind { W_EXEC, W_FILE, W_CALL, W_EVENT, W_GC };
struct Work { WKind kind; const char *src; };
const Work WORK[] = {
  {W_EXEC, "{ let na = []; for (let ni = 0; ni < 5; ni++) { if (ni === 1) { continue; } if (ni === 3) { break; } na.push({t: 'n' + chr(65 + ni)}); } note(na); }"},
  {W_EXEC, "{ let no = {v: 3, f: function(nn) { return nn > 0 ? this.v + this.f(nn - 1) : 0; }}; note(no.f(5)); }"},
  {W_EXEC, "{ let nf = function(np) { for (let nk in {x: 1, y: 2}) { while (true) { if (np > 0) { return nk + 'found'; } break; } } return 'none'; }; note(nf(1) + nf(0)); }"},
  {W_EXEC, "{ note(JSON.parse(JSON.stringify({a: [1, 'two', {b: 'three'}], c: null}))); }"},
  {W_EXEC, "{ let nc = function(ni, nu) { return ni + nu.q; }; let nd = {q: 10, t: 'data'}; note(f_each_(3, nc, nd)); ffi_cb_free(nc, nd); }"},
  {W_EXEC, "{ let ns = ''; for (let ni = 0; ni < 40; ni++) { ns = ns + 'piece ' + chr(65 + ni % 26); } note(ns.length); note(ns.slice(20, 30)); }"},
  {W_EXEC, "{ let nn = {}; load('ns17.js', nn); note(nn); }"},
  {W_EXEC, "{ note(hcall(meth0, {n: 4}, 5, 6) + hcall(id, {n: 4}, 5, 6)); }"},
  {W_EXEC, "{ note(meth0.apply({n: 40}, [2])); note(f_add_(3, f_add_(4, 5))); note(f_cat_('left', f_cat_('mid', 'right'))); }"},
  {W_EXEC, "{ note(htry(function(np) { for (let nk in {x: 1}) { return die('inner failure'); } }, {}, 1)); note(htry(function(np) { return np + 1; }, {}, 1)); }"},
  {W_EXEC, "break;"}, {W_EXEC, "continue;"}, {W_EXEC, "return 7;"}, {W_EXEC, "{ note('before'); null.x; note('after'); }"}, {W_EXEC, "no_such_n17;"}, {W_EXEC, "let 5 = ;"},
  {W_EXEC, "{ let nf = function(np) { for (let ni = 0; ni < 2; ni++) { for (let nk in {a: 1, b: 2}) { if (np > 0) { nf(np - 1); } else { note(nk); die('deep in loops'); } } } }; nf(3); }"},
  {W_EXEC, "{ let no = {t: 'text of the failing one'}; JSON.parse('[1, {\"a\": ' + '2'); }"},
  {W_EXEC, "load('nofile17.js');"}, {W_EXEC, "load('bad17.js', {});"}, {W_EXEC, "load('syn17.js', {});"},
  {W_EXEC, "{ f_each_(2, function(ni, nu) { note(ni); return null.x; }, {a: 1}); }"},
  {W_EXEC, "{ id(1, id(2, [3, no_such_n17])); }"}, {W_EXEC, "{ for (let nk in 7) { note(nk); } }"}, {W_EXEC, "{ (5)(6); }"}, {W_EXEC, "{ while (true) { (function() { break; })(); } }"},
  {W_EXEC, "{ hcall(function() { continue; }, {}, 1, 2); }"},
  {W_FILE, "file17.js"}, {W_FILE, "bad17.js"}, {W_FILE, "syn17.js"}, {W_FILE, "nofile17.js"},
  {W_CALL, "meth0"}, {W_CALL, "amul0"}, {W_CALL, "mk0"}, {W_CALL, "f_add_"}, {W_CALL, "id"}, {W_CALL, "n17_fails"}, {W_CALL, "n17_loops"}, {W_CALL, "gz_s0"}, {W_CALL, "n17_this"},
  {W_CALL, "die"}, {W_CALL, "f_cat_"}, {W_CALL, "load"}, {W_CALL, "hcall"}, {W_CALL, "hcall"}, {W_CALL, "f_each_"}, {W_CALL, "mkstr"},
  {W_EVENT, "ok"}, {W_EVENT, "fails"},
  {W_GC, ""}, {W_GC, ""},
};
enum { NWORK = sizeof(WORK) / sizeof(WORK[0]) };

typedef int (*cb17)(int, void *);
struct Reg17 { cb17 cb; void *ud; };
std::vector<Reg17> *regs;
void f_reg(cb17 cb, void *ud) { regs->push_back({cb, ud}); }
Engine *eng17;
void pause17() { if (on_host_call && eng17) on_host_call(eng17); }
int f_add17(int a, int b) { pause17(); return a + b; }
bool f_not17(bool b) { pause17(); return !b; }
char *f_cat17(const char *a, const char *b) {
  static char buf[4][9000];
  static int k;
  std::string s = std::string(a) + "+" + b;
  pause17();
  char *p = buf[k++ % 4];
  snprintf(p, 9000, "%s", s.c_str());
  return p;
}
int f_each17(int n, cb17 cb, void *ud) {
  int sum = 0;
  for (int i = 0; i < n; i++) {
    pause17();
    sum += cb(i, ud);
    if (strcmp(mjs_strerror(tl_engine, MJS_OK), "NO_ERROR")) break;
    pause17();
    sum %= 1000;
  }
  return sum;
}
void *dlsym17(void *h, const char *n) {
  std::string s = n;
  if (s == "f_reg") return (void *) f_reg;
  if (s == "f_add") return (void *) f_add17;
  if (s == "f_not") return (void *) f_not17;
  if (s == "f_cat") return (void *) f_cat17;
  if (s == "f_each") return (void *) f_each17;
  return host_dlsym(h, n);
}
std::vector<std::string> notes;
void h_note(struct mjs *m) {
  Engine *e = eng_of(m);
  notes.push_back(e->dump(mjs_arg(m, 0), 60));
  e->maybe_host_gc();
  mjs_return(m, mjs_mk_undefined());
}
struct Out { mjs_err_t err; std::string text, value; std::vector<std::string> notes; };
// does one piece of work and reports what came of it
Out work(Engine &e, int w, bool keep_error) {
  const Work &k = WORK[w];
  Out o;
  std::vector<std::string> outer;
  outer.swap(notes);
  mjs_val_t res = mjs_mk_undefined();
  o.err = MJS_OK;
  switch (k.kind) {
    case W_EXEC: o.err = mjs_exec(e.m, k.src, &res); break;
    case W_FILE: o.err = mjs_exec_file(e.m, k.src, &res); break;
    case W_CALL: {
      mjs_val_t self = mjs_mk_object(e.m);
      mjs_own(e.m, &self);
      mjs_set(e.m, self, "n", ~0, mjs_mk_number(e.m, 30));
      mjs_set(e.m, self, "s", ~0, mkstr(e.m, "text of the receiver"));
      o.err = mjs_call(e.m, &res, e.global(k.src), self, 2, mjs_mk_number(e.m, 9), mjs_mk_number(e.m, 4));
      if (o.err == MJS_OK) o.value = e.dump(res, 60);
      mjs_disown(e.m, &self);
      break;
    }
    case W_EVENT: {
      const Reg17 &r = (*regs)[k.src[0] == 'o' ? 0 : 1];
      int v = r.cb(6, r.ud);
      if (strcmp(mjs_strerror(e.m, MJS_OK), "NO_ERROR")) o.err = MJS_INTERNAL_ERROR;
      else o.value = strf("%d", v);
      break;
    }
    case W_GC: mjs_gc(e.m, 1); break;
  }
  if (o.err != MJS_OK) { o.text = e.errtext(); if (!keep_error) mjs_set_errorf(e.m, MJS_OK, NULL); }
  o.notes.swap(notes);
  outer.swap(notes);
  return o;
}
std::string show(const Out &o) { std::string s = strf("error %d '%s' value %s notes", o.err, o.text.c_str(), o.value.c_str()); for (auto &n : o.notes) s += " " + n; return esc(s, 700); }
}  // namespace

static void plan17(Rng &r, Plan &p) {
  p.cfg["gc"] = (int64_t) r.below(4);
  p.cfg["rate"] = (int64_t) r.below(4);
  p.cfg["fail"] = (int64_t) r.below(3);
  p.cfg["kinds"] = r.chance(0.4) ? 0 : (int64_t) r.below(1u << 20);
  p.cfg["natural"] = r.chance(0.4);
  p.cfg["cps"] = r.chance(0.3);
  p.cfg["fill"] = r.chance(0.5) ? 0xA5 : 0;
  static const char *K[] = {"chunk", "chunk", "chunk", "file", "load", "call", "call", "gc", "deep"};
  int n = (int) r.range(2, 9);
  for (int i = 0; i < n; i++) p.add(K[r.below(9)], {(int64_t) r.below(1u << 30), r.range(2, 9)});
}
static void run17(const Plan &p) {
  A.fill = (int) p.get("fill");
  S.max_steps_op = 2000000;
  Engine e;
  Model m;
  std::vector<Reg17> rg;
  regs = &rg;
  eng17 = &e;
  notes.clear();
  S.armed = false;
  e.create();
  mjs_set_ffi_resolver(e.m, dlsym17);
  host_bind_model(m);
  if (p.get("cps")) host_bind_cp(m, &e);
  run_prelude(e, m);
  mjs_set(e.m, mjs_get_global(e.m), "note", ~0, mjs_mk_foreign_func(e.m, (mjs_func_ptr_t) h_note));
  for (const char *n : {"note", "f_reg_", "n17_fails", "n17_loops", "n17_this", "n17_ok", "n17_bad", "d17", "n17r"}) e.skip.insert(n);
  disk::put("ns17.js", "let nx = 'loaded text'; note(nx); let ny = function(nz) { return nz; };");
  disk::put("file17.js", "{ let nq = [1, 'two']; for (let ni in nq) { note(ni); } note(nq); }");
  disk::put("bad17.js", "{ let nb = {t: 'text of a failing file'}; note('bad17'); for (let ni = 0; ni < 3; ni++) { if (ni === 1) { (function() { no_such_n17(nb); })(); } } }");
  disk::put("syn17.js", "{ let 5 = ; }");
  if (e.exec("let n17_fails = function(na) { for (let nk in {a: 1}) { note(na); die('a called function failed'); } };\n"
             "let n17_loops = function(na, nb) { let ns = 0; for (let ni = 0; ni < na; ni++) { if (ni === 2) { continue; } for (let nk in {a: 1, b: 2}) { ns = ns + nb; break; } } return ns; };\n"
             "let n17_this = function(na) { let no = this; for (let ni = 0; ni < 2; ni++) { id('some ' + 'garbage'); } return no.s + this.s; };\n"
             "let d17 = {}; let n17r = 0;\n"
             "let f_reg_ = ffi('void f_reg(int (*)(int, userdata), userdata)');\n"
             "let n17_ok = function(ni, nu) { note(nu); return ni + nu.q; }; let n17_bad = function(ni, nu) { note(nu); return null.x; };\n"
             "f_reg_(n17_ok, {q: 5, t: 'data of ok'}); f_reg_(n17_bad, {q: 6, t: 'data of bad'});") != MJS_OK) S.fail("prelude", "prelude failed: %s", e.errtext().c_str());
  // what each piece of work does when nothing is interrupted by it
  static std::vector<Out> want;
  want.clear();
  for (int w = 0; w < NWORK; w++) want.push_back(work(e, w, false));
  notes.clear();
  static const double GC[] = {0, 0.01, 0.1, 0.4}, RATE[] = {0.02, 0.1, 0.3, 0.8}, FA[] = {0, 0.002, 0.02};
  S.rate[F_GC] = GC[p.get("gc")];
  S.rate[F_GC_HOST] = p.get("gc") ? 0.15 : 0;
  if (p.get("cps")) S.rate[F_FAIL_HOST] = 0.2;
  int depth = 0, done = 0;
  std::vector<int> kinds;
  { Rng kr((uint64_t) p.get("kinds")); int n = p.get("kinds") ? (int) kr.range(1, 5) : NWORK; for (int i = 0; i < n; i++) kinds.push_back(p.get("kinds") ? (int) kr.below(NWORK) : i); }
  on_host_call = [&](Engine *x) {
    if (!S.armed || depth >= 3 || done >= 60) return;
    if (strcmp(mjs_strerror(x->m, MJS_OK), "NO_ERROR")) return;   // a failure is on its way up
    int64_t arg = 0;
    if (!S.decide(F_REENTER, RATE[p.get("rate")] / (1 + depth * 3), &arg, 1 << 20)) return;
    int w = kinds[(size_t) arg % kinds.size()];
    depth++;
    done++;
    double keep_fail = S.rate[F_FAIL_OP], keep_host = S.rate[F_FAIL_HOST];
    S.rate[F_FAIL_OP] = FA[p.get("fail")];
    S.rate[F_FAIL_HOST] = 0;
    S.log("nested %d at depth %d", w, depth);
    std::string self0 = e.dump(mjs_get_this(x->m), 40);
    int na = mjs_nargs(x->m);
    std::string a0 = e.dump(mjs_arg(x->m, 0), 40), a1 = e.dump(mjs_arg(x->m, 1), 40);
    uint64_t f0 = tl_fails;
    Out o = work(e, w, false);
    bool injected = tl_fails != f0;
    S.rate[F_FAIL_OP] = keep_fail;
    S.rate[F_FAIL_HOST] = keep_host;
    depth--;
    const Out &n = want[(size_t) w];
    // injected failures end up in the innermost work; what is around it may see them as a failure of its own
    if (!injected && (o.err != n.err || o.text != n.text || o.value != n.value || o.notes != n.notes))
      S.fail("nested-differs", "'%s' run from within a call: %s; on its own: %s", esc(WORK[w].src, 300).c_str(), show(o).c_str(), show(n).c_str());
    if (strcmp(mjs_strerror(x->m, MJS_OK), "NO_ERROR")) S.fail("pending-error", "an error is left behind after nested work whose failure was cleared: %s", e.errtext().c_str());
    if (mjs_nargs(x->m) != na || e.dump(mjs_arg(x->m, 0), 40) != a0 || e.dump(mjs_arg(x->m, 1), 40) != a1)
      S.fail("call-changed", "after nested work '%s', a host function's arguments were %d: %s, %s; before %d: %s, %s", esc(WORK[w].src, 300).c_str(), mjs_nargs(x->m), e.dump(mjs_arg(x->m, 0), 40).c_str(), e.dump(mjs_arg(x->m, 1), 40).c_str(), na, a0.c_str(), a1.c_str());
    if (e.dump(mjs_get_this(x->m), 40) != self0) S.fail("call-changed", "after nested work '%s', a host function's receiver is %s; before %s", esc(WORK[w].src, 300).c_str(), e.dump(mjs_get_this(x->m), 40).c_str(), self0.c_str());
    S.probe(o.err ? "nested_work_failed" : "nested_work_done");
    if (depth) S.probe("nested_in_nested");
  };
  S.armed = true;
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    Rng r((uint64_t) op.a[0]);
    done = 0;
    S.log("%s", op.name.c_str());
    if (op.name == "gc") { mjs_gc(e.m, 1); continue; }
    if (op.name == "deep") {  // many calls, receivers and loops are pending when the host gets its turn
      int n = (int) r.range(1, 60), k = (int) r.below(5);
      static const char *B[] = {
        "function(n) { return n > 0 ? id(n, id('x' + 'y', d17.f(n - 1))) + d17.f(-n) : n < 0 ? 1 : f_add_(1, 2); }",
        "function(n) { let s = 0; for (let i = 0; i < 2; i++) { if (n <= 0) { return f_add_(n, 1); } for (let k in {a: 1, b: 2}) { s = s + (i === 0 ? id(d17.f(n - 1), k) : 1); if (i === 0) { break; } } } return s; }",
        "function(n) { let o = {v: n, g: function(p) { return this.v + p; }}; return n > 0 ? o.g(d17.f(n - 1)) : id(1); }",
        "function(n) { return n > 0 ? hcall(d17.f, d17, n - 1, 2) + this.z : this.z + f_add_(0, 0); }",
        "function(n) { let c = function(i, u) { return d17.f(u.n) % 1000; }; let u = {n: n - 1}; if (n <= 0) { return f_add_(1, 1); } let v = f_each_(1, c, u); ffi_cb_free(c, u); return v + 1; }"};
      if (k >= 3) n = n % 12;
      std::string src = strf("d17 = {f: %s, z: 7}; n17r = d17.f(%d); n17r;", B[k], n);
      mjs_val_t res = mjs_mk_undefined();
      S.armed = false;
      mjs_err_t err = mjs_exec(e.m, src.c_str(), &res);
      S.armed = true;
      if (err != MJS_OK) S.fail("prelude", "deep calls failed: %s", e.errtext().c_str());
      double want1 = mjs_get_double(e.m, res);
      err = mjs_exec(e.m, src.c_str(), &res);
      if (err != MJS_OK) S.fail("spurious-error", "the interrupted script failed: %s | %s", e.errtext().c_str(), src.c_str());
      if (!mjs_is_number(res) || mjs_get_double(e.m, res) != want1) S.fail("wrong-result", "%s gave %s, %g without nested work", src.c_str(), e.dump(res).c_str(), want1);
      S.sh->ops_done++;
      continue;
    }
    GenCfg c;
    c.stmts = (int) op.a[1];
    c.natural = p.get("natural");
    c.cps = p.get("cps");
    std::function<void(Model &)> go;
    std::string src;
    mjs_err_t err;
    mjs_val_t res = mjs_mk_undefined();
    if (op.name == "call") {
      Gen g(r, m, c, "zz");
      if (g.fns.empty()) continue;
      Gen::Fn f = g.fns[r.below(g.fns.size())];
      std::vector<MVal> ma;
      std::vector<mjs_val_t> ea;
      bool ok = true;
      for (char t : f.sig.substr(0, f.sig.find('>'))) {
        Node *v = g.var(t);
        if (v) { ma.push_back(*m.global(v->s)); ea.push_back(e.global(v->s.c_str())); }
        else if (t == 'N') { ma.push_back(MVal::num(3)); ea.push_back(mjs_mk_number(e.m, 3)); }
        else ok = false;
      }
      if (!ok) continue;
      MVal mf = *m.global(f.name), self = *m.global("gz_o0");
      {
        Model t = m;
        t.fuel = 30000;
        t.limit = ~0ull;
        if (c.cps) t.host["cp"] = [](Model &, const MVal &, std::vector<MVal> &a) { return a[0]; };
        try { t.call(mf, self, ma); } catch (MFuel &) { continue; } catch (MErr &) {}
      }
      src = "host call of " + f.name;
      go = [=](Model &x) { MVal v = x.call(mf, self, const_cast<std::vector<MVal> &>(ma)); };
      err = mjs_apply(e.m, &res, e.global(f.name.c_str()), e.global("gz_o0"), (int) ea.size(), ea.data());
    } else {
      auto prog = gen_program((uint64_t) op.a[0], m, c, strf("g%d", op.id));
      src = print_program(prog);
      if (S.verbose) { printf("%s\n", src.c_str()); fflush(stdout); }
      go = [prog](Model &x) { x.run(prog); };
      std::string f = strf("f%d.js", op.id);
      disk::put(f, src);
      if (op.name == "chunk") err = e.exec(src, &res);
      else if (op.name == "file") err = mjs_exec_file(e.m, f.c_str(), &res);
      else err = e.exec("load('" + f + "');", &res);
    }
    bool fails = false;
    m.fuel = 1u << 30;
    m.limit = ~0ull;
    try { go(m); }
    catch (MErr &) { fails = true; m.scopes.clear(); m.scope_obj.clear(); m.cur_this = MVal(); m.depth = 0; }
    catch (MDiverged &) { check_trace(e, m, src); S.fail("wrong-result", "the engine passed fewer checkpoints than expected | %s", esc(src, 2500).c_str()); }
    if (err != MJS_OK && !fails) S.fail("spurious-error", "the interrupted script failed: %s | %s", e.errtext().c_str(), esc(src, 2500).c_str());
    if (err == MJS_OK && fails) S.fail("missed-error", "a failing script reported success | %s", esc(src, 2500).c_str());
    check_trace(e, m, src);
    check_globals(e, m, src);
    if (e.cppos != e.cplog.size()) S.fail("wrong-result", "the engine passed %zu checkpoints, expected %zu | %s", e.cplog.size(), e.cppos, esc(src, 2500).c_str());
    S.sh->ops_done++;
  }
  S.armed = false;
  on_host_call = nullptr;
  for (int w = 0; w < NWORK; w++) {
    Out o = work(e, w, false);
    if (o.err != want[(size_t) w].err || o.text != want[(size_t) w].text || o.value != want[(size_t) w].value || o.notes != want[(size_t) w].notes)
      S.fail("nested-differs", "'%s' at the end: %s; at first: %s", esc(WORK[w].src, 300).c_str(), show(o).c_str(), show(want[(size_t) w]).c_str());
  }
  e.destroy();
  eng17 = nullptr;
}
static Reg reg17("P17", plan17, run17);
