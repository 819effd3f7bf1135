// P15: automatic collection keeps up with the garbage a long-running script makes.
// Nobody asks for a collection here: only the engine's own triggers run.
#include "common.h"
int p03_nbody();
const char *p03_body(int i, int what);
void p03_setup(Engine &e);
void p03_event(int i);

// workloads that replace what they keep, on top of those of P03
struct Own { const char *name, *src; };
static const Own OWN[] = {
  {"ring", "ring[seq % 8] = {n: seq, t: 'text number ' + chr(65 + seq % 26)}; return ring[seq % 8].n;"},
  {"text_ring", "ring[seq % 8] = 'a text of its own, number ' + chr(65 + seq % 26) + chr(97 + seq % 26); return 1;"},
  {"growing", "acc = acc + 'appended text ' + chr(65 + seq % 26); if (acc.length > 400) { acc = ''; } return acc.length;"},
  {"queue", "q.push({v: seq}); if (q.length > 6) { q.splice(0, 3); } return q.length;"},
  {"map", "let k = 'key_' + chr(65 + seq % 10) + chr(65 + seq % 7); hset(mp, k, {v: seq}); if (seq % 3 === 0) { for (let x in mp) { hdel(mp, x); } } return 1;"},
  {"list", "lst = {next: lst, v: seq}; if (seq % 12 === 0) { lst = null; } return 1;"},
  {"list_cycle", "let n = {v: seq, o: null}; n.o = {back: n, r: ring}; lst2 = n; return 1;"},
  {"one_text", "let t = 'long text ' + chr(65 + seq % 26) + ' that is kept nowhere'; return t.length;"},
  {"one_object", "let o = {}; o.x = 1; return 1;"},
  {"one_ffi", "let f = ffi('int f_add(int, int)'); return f(seq, 1);"},
  {"kept_ffi", "kf = ffi('int f_add(int, int)'); return kf(seq, 1);"},
  {"proto", "base = Object.create({n: seq, t: 'text of the base'}); return base.n;"},
  {"host_kept", "keep(seq % 4, {t: 'kept by the host ' + chr(65 + seq % 26)}); return 1;"},
  {"deep", "let d = {}; let e = d; for (let i = 0; i < 15; i++) { e.n = {i: i}; e = e.n; } return d.n.n.i;"},
  {"concat_many", "let s = ''; for (let i = 0; i < 30; i++) { s = s + 'x' + chr(65 + i % 26); } return s.length;"},
  {"json_big", "return JSON.parse('[{\"a\": \"text of the first\"}, {\"b\": [1, 2, 3, {\"c\": \"text of the second\"}]}]').length;"},
  {"fn", "let f = function(a) { return a + 1; }; let g = {f: f, t: 'a text'}; return g.f(seq);"},
};
enum { NOWN = sizeof(OWN) / sizeof(OWN[0]) };
static const char *PRE15 = "let seq = 0; let ring = [0,0,0,0,0,0,0,0]; let acc = ''; let q = []; let mp = {}; let lst = null; let lst2 = null; let kf = null; let base = null;\n";

static bool flag15(int k, char c) { return k < NOWN ? false : strchr(p03_body(k - NOWN, 2), c) != nullptr; }
static const char *name15(int k) { return k < NOWN ? OWN[k].name : p03_body(k - NOWN, 0); }
static const char *src15(int k) { return k < NOWN ? OWN[k].src : p03_body(k - NOWN, 1); }
// usable: script code that neither asks for a collection nor leaves something behind on purpose
static bool usable(int k) {
  const char *n = name15(k);
  return n[0] != '@' && !flag15(k, 'K') && strcmp(n, "gc") != 0 && strncmp(n, "load", 4) != 0;
}
enum How { H_LOOP, H_CALL, H_EVENT, H_NESTED, H_EACH, H_FORIN, H_HOST, H_RECUR, H_EXECD, H_TIGHT, H_N };
static const char *const HOWN[] = {"one script that loops", "one host call each", "one event each", "a loop in a nested run", "callbacks of one C function", "a loop over the properties of an object",
  "the host making values itself", "a loop in a deep recursion", "a loop in a nested script", "a loop that opens no scope"};

// loops whose bodies open no scope: the values they make are all that asks for a collection
static const Own TIGHT[] = {
  {"text", "tt = 'text of a tight loop ' + chr(65 + tn % 26)"}, {"object", "tt = {}"}, {"objects", "tt = {n: tn, o: {}}"}, {"array", "tt = [tn, 'an element']"},
  {"ffi", "tt = ffi('int f_add(int, int)')"}, {"slice", "tt = lt.slice(1, 30 + tn % 8)"}, {"stringify", "tt = JSON.stringify(lo)"}, {"parse", "tt = JSON.parse(lj)"},
  {"create", "tt = Object.create(lo)"}, {"host_text", "tt = f_same_(lt)"}, {"host_object", "tt = mk0(tn, 'text')"}, {"long_text", "tt = lt + lt + chr(65 + tn % 26)"},
  {"property", "lo.p = {n: tn}"}, {"element", "ring[tn % 4] = 'another element ' + chr(65 + tn % 26)"}, {"call", "id(lt + 'passed on')"}, {"big_text", "tt = big + ''"}, {"big_slice", "tt = big.slice(1, 300)"}, {"big_host_text", "tt = f_same_(big)"}, {"text_key", "tt = lo['a key that is ' + 'not there']"},
};
enum { NTIGHT = sizeof(TIGHT) / sizeof(TIGHT[0]) };

static void plan15(Rng &r, Plan &p) {
  p.cfg["fill"] = r.chance(0.5) ? 0xA5 : 0;
  p.cfg["how"] = (int64_t) r.below(H_N);
  p.cfg["tight"] = (int64_t) r.below(NTIGHT);
  p.cfg["tform"] = (int64_t) r.below(4);
  p.cfg["fail"] = r.chance(0.4);
  int nh = r.chance(0.4) ? 0 : (int) r.range(1, 8);
  static const char *HK[] = {"fail", "fail", "deepfail", "syntax", "missing", "okscript", "eventfail", "nestedfail", "live", "livetext", "own", "gc", "badcall"};
  for (int i = 0; i < nh; i++) p.add(HK[r.below(sizeof(HK) / sizeof(HK[0]))], {(int64_t) r.below(1u << 30)});
  int nb = (int) r.range(1, 4);
  for (int i = 0; i < nb; i++) {
    int k;
    do { k = r.chance(0.45) ? (int) r.below(NOWN) : NOWN + (int) r.below((uint64_t) p03_nbody()); } while (!usable(k) || (p.cfg["fail"] && flag15(k, 'U')));
    p.add("body", {k});
  }
}
// calls a function in which failures may be injected, and swallows the failure
static bool g_fails;
static void h_guard(struct mjs *m) {
  mjs_val_t r = mjs_mk_undefined();
  double old = S.rate[F_FAIL_OP];
  S.rate[F_FAIL_OP] = g_fails ? 0.002 : 0;
  mjs_err_t err = mjs_call(m, &r, mjs_arg(m, 0), mjs_mk_undefined(), 0);
  S.rate[F_FAIL_OP] = old;
  if (err != MJS_OK) { mjs_set_errorf(m, MJS_OK, NULL); S.probe("failure_swallowed_by_host"); }
  mjs_return(m, mjs_mk_undefined());
}
static void run15(const Plan &p) {
  A.fill = (int) p.get("fill");
  S.max_steps_op = 20000000;
  Engine e;
  e.gc_in_host = false;
  S.armed = false;
  p03_setup(e);
  if (e.exec(PRE15) != MJS_OK) S.fail("prelude", "prelude failed: %s", e.errtext().c_str());
  mjs_set(e.m, mjs_get_global(e.m), "guard", ~0, mjs_mk_foreign_func(e.m, (mjs_func_ptr_t) h_guard));
  g_fails = p.get("fail");
  std::vector<int> bs;
  std::string names;
  int how = (int) p.get("how");
  mjs_val_t hold = mjs_mk_undefined();
  mjs_own(e.m, &hold);
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    Rng r((uint64_t) op.a[0]);
    S.sh->ops_done++;
    if (op.name == "body") {
      int k = (int) op.a[0] % (NOWN + p03_nbody());
      if (!usable(k)) continue;
      bool dup = false;
      for (int x : bs) dup |= x == k;
      if (dup) continue;
      if (e.exec(strf("let body%d = function() { %s };", k, src15(k))) != MJS_OK) S.fail("prelude", "body %s does not compile: %s", name15(k), e.errtext().c_str());
      bs.push_back(k);
      names += std::string(names.empty() ? "" : "+") + name15(k);
      continue;
    }
    S.log("%s", op.name.c_str());
    static const char *FAILS[] = {"null.x;", "for (let i = 0; i < 3; i++) { for (let k in {a: 1}) { no_such; } }", "let o15 = {f: f1}; o15.f(4);", "hcall(f1, {}, 3, 4);", "JSON.parse('{\"a\": [1, ');",
      "id(1, 2, id(3, no_such));", "[1, {a: die('x')}];", "ffi('int f_add(int, struct foo)');", "f_each_(2, function(i, u) { return null.x; }, null);"};
    if (op.name == "fail") { const char *t = FAILS[r.below(9)]; e.exec(t); }
    else if (op.name == "deepfail") e.exec("f1(14);");
    else if (op.name == "syntax") e.exec("let 5 = ;");
    else if (op.name == "missing") mjs_exec_file(e.m, "nofile.js", nullptr);
    else if (op.name == "okscript") e.exec("let r15 = f0(9); hcall(f0, {}, 3, 4);");
    else if (op.name == "eventfail") { p03_event(9); mjs_set_errorf(e.m, MJS_OK, NULL); }
    else if (op.name == "nestedfail") e.exec("htry(function() { return hcall(f1, {}, 2, 3); }, {}, 1); htry(f1, {}, 2);");
    else if (op.name == "live") e.exec(strf("let live%d = []; for (let i = 0; i < %d; i++) { live%d.push({i: i}); }", op.id, (int) r.range(5, 120), op.id));
    else if (op.name == "livetext") e.exec(strf("let livt%d = []; for (let i = 0; i < %d; i++) { livt%d.push('text that stays alive, number ' + chr(65 + i %% 26)); }", op.id, (int) r.range(5, 60), op.id));
    else if (op.name == "own") hold = mkstr(e.m, "a text the host holds on to");
    else if (op.name == "gc") mjs_gc(e.m, (int) r.below(2));
    else if (op.name == "badcall") { mjs_val_t x = mjs_mk_undefined(); mjs_call(e.m, &x, mjs_mk_number(e.m, 5), mjs_mk_undefined(), 0); }
    e.trace.clear();
  }
  if (bs.empty()) { mjs_disown(e.m, &hold); e.destroy(); return; }
  std::string one = "seq++;";
  for (int k : bs) {
    bool wrap = p.get("fail") || flag15(k, 'F') || flag15(k, '?');
    one += wrap ? strf(" guard(body%d);", k) : strf(" body%d();", k);
  }
  std::string keys;
  for (int i = 0; i < 50; i++) keys += strf("%sk%d: 1", i ? ", " : "", i);
  std::string prog = "let one = function() { " + one + " return 1; };\n"
    "let loop = function(n) { for (let zi = 0; zi < n; zi++) { " + one + " } return 1; };\n"
    "let deep = function(d, n) { let o = {d: d}; return d > 0 ? deep(d - 1, n) + o.d : loop(n); };\n"
    "let keys15 = {" + keys + "}; let loopin = function(n) { for (let r = 0; r < n / 50; r++) { for (let k in keys15) { " + one + " } } return 1; };\n"
    "f_hold_(function(i, u) { let t = 'in the event'; " + one + " return i; }, {x: 4});\n"
    "let each15 = function(i, u) { " + one + " return i; };\n";
  if (e.exec(prog) != MJS_OK) S.fail("prelude", "workload does not compile: %s", e.errtext().c_str());
  if (how == H_TIGHT) {
    names = TIGHT[p.get("tight")].name;
    if (e.exec("let tn = 0; let tt = 0; let lt = 'a text long enough to be cut into pieces'; let lo = {a: 1, b: 'text of b'}; let lj = '[1, {\"a\": \"text of a\"}]'; let big = 'x'; for (let i = 0; i < 10; i++) { big = big + big; }") != MJS_OK) S.fail("prelude", "prelude failed: %s", e.errtext().c_str());
  }
  S.log("%s: %s", HOWN[how], names.c_str());
#ifdef MJS_OBJECT_ARENA_SIZE
  const int N = 50;   // the variant with tiny arenas collects at almost every instruction
#else
  const int N = 150;
#endif
  auto check = [&](mjs_err_t err) { if (err != MJS_OK) S.fail("spurious-error", "the workload '%s' failed: %s", names.c_str(), e.errtext().c_str()); };
  auto phase = [&](int n) -> int64_t {
    S.steps_op = 0;
    e.trace.clear();
    S.armed = true;
    S.rate[F_FAIL_OP] = 0;
    int seq0 = mjs_get_int(e.m, e.global("seq"));
    alloc_peak_reset();
    switch (how) {
      case H_LOOP: check(e.exec(strf("loop(%d);", n))); break;
      case H_FORIN: check(e.exec(strf("loopin(%d);", n))); break;
      case H_RECUR: check(e.exec(strf("deep(12, %d);", n))); break;
      case H_EXECD:   // a file is run only the first time it is loaded
        disk::put(strf("w%d.js", S.cur_op), strf("for (let zi = 0; zi < %d; zi++) { %s }", n, one.c_str()));
        check(e.exec(strf("load('w%d.js');", S.cur_op)));
        break;
      case H_TIGHT: {
        const char *t = TIGHT[p.get("tight")].src;
        std::string l = p.get("tform") == 0 ? strf("while (tn-- > 0) %s;", t) : p.get("tform") == 1 ? strf("for (tn = %d; tn > 0; tn--) %s;", 4 * n, t)
          : p.get("tform") == 2 ? strf("while (tn-- > 0) { %s; }", t) : strf("while (tn-- > 0) if (tn %% 3) %s;", t);
        check(e.exec(strf("tn = %d; seq = seq + %d; %s", 4 * n, n, l.c_str())));
        break;
      }
      case H_NESTED: check(e.exec(strf("hcall(loop, {}, %d, 0);", n))); break;
      case H_EACH: check(e.exec(strf("f_each_(%d, each15, null); ffi_cb_free(each15, null);", n))); break;
      case H_CALL: for (int i = 0; i < n; i++) { mjs_val_t x = mjs_mk_undefined(); check(mjs_call(e.m, &x, e.global("one"), mjs_mk_undefined(), 0)); } break;
      case H_EVENT: for (int i = 0; i < n; i++) { p03_event(i % 5); } break;
      case H_HOST:
        for (int i = 0; i < n; i++) {
          mjs_val_t o = mjs_mk_object(e.m);
          mjs_own(e.m, &o);
          mjs_set(e.m, o, "text", ~0, mkstr(e.m, strf("made by the host, number %d", i % 100)));
          mjs_val_t a = mjs_mk_array(e.m);
          mjs_set(e.m, o, "a", ~0, a);
          for (int j = 0; j < 3; j++) mjs_array_push(e.m, a, mkstr(e.m, "an element made by the host"));
          mjs_val_t x = mjs_mk_undefined();
          check(mjs_call(e.m, &x, e.global("one"), mjs_mk_undefined(), 1, o));
          mjs_disown(e.m, &o);
        }
        break;
    }
    S.armed = false;
    int64_t peak = (int64_t) alloc_peak();
    int done = mjs_get_int(e.m, e.global("seq")) - seq0;
    if (done != n) S.fail("spurious-error", "the workload '%s' was done %d times instead of %d", names.c_str(), done, n);
    S.sh->ops_done++;
    return peak;
  };
  S.begin_op(1000);
  phase(N);
  S.begin_op(1001);
  int64_t a = phase(N);
  S.begin_op(1002);
  int64_t b = phase(3 * N);
  if (S.verbose) printf("%s: %s: peaks %lld %lld\n", HOWN[how], names.c_str(), (long long) a, (long long) b), fflush(stdout);
  if (b - a > 3000) {
    S.begin_op(1003);
    int64_t c = phase(6 * N);
    if (S.verbose) printf("then %lld\n", (long long) c);
    if (c - b > b - a && c - b > 6000)
      S.fail("unbounded", "%s, repeating '%s': the most memory held at once was %lld bytes in %d repetitions, %lld in %d, %lld in %d", HOWN[how], names.c_str(), (long long) a, N, (long long) b, 3 * N, (long long) c, 6 * N);
    S.probe("high_water_growth");
  }
  S.state(fnvs(names) * 31 + (uint64_t) how);
  mjs_disown(e.m, &hold);
  e.destroy();
}
static Reg reg15("P15", plan15, run15);
