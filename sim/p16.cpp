// P16: memory that cannot be had is reported as a failure, and a failure stays one
// when there is no memory to describe it.
// Two engines run one history: one is never refused anything, the other is.
#include "common.h"
int p03_nbody();
const char *p03_body(int i, int what);
void p03_setup(Engine &e);
void *p03_resolve(void *h, const char *n);
void p03_event(int i);

typedef int (*cb16)(int, void *);
extern "C" {
static cb16 ev_fn;
static void *ev_ud;
static void f_hold16(cb16 cb, void *ud) { ev_fn = cb; ev_ud = ud; }
// a callback that fails returns 0, and then C code stops calling it
static int f_each16(int n, cb16 cb, void *ud) {
  int sum = 0;
  for (int i = 0; i < n; i++) { int r = cb(i, ud); if (r == 0) break; sum = (sum + r) % 1000; }
  return sum;
}
static int f_wide(int a, int (*cb)(int, int, char *, double, void *), void *ud, int b) { return cb(a, b, (char *) "text from C", 0, ud); }
}
static void *resolver16(void *h, const char *n) {
  if (!strcmp(n, "f_each")) return (void *) f_each16;
  if (!strcmp(n, "f_hold16")) return (void *) f_hold16;
  if (!strcmp(n, "f_wide")) return (void *) f_wide;
  return p03_resolve(h, n);
}
// scripts that fail, and scripts that need memory of their own
static const char *SCRIPTS[] = {
  "emit(1); null.x; emit(2);", "let a = 5;\nlet f = function(x) {\n  return x.y.z;\n};\nf({});", "emit('start'); die('a message of the script');", "load('bad.js');", "load('no_such_file.js');", "load('fails.js');",
  "emit(htry(function() { load('fails.js'); }, {}, 1)); emit('after');", "ffi('int f_add(int, struct foo)');", "ffi('garbage');", "ffi('int nope(int)');", "ffi('int f_each(int, int (*)(struct foo, userdata), userdata)');",
  "JSON.parse('{\"a\": [1, 2');", "JSON.parse('{\"a\": \"text\", \"b\" 5}');", "let o = {x: {y: 5}}; o.x.y(1, 2);", "5 5;", "let = 3;", "function(", "for (let k in 5) { emit(k); }",
  "f1(6);", "hcall(f1, {}, 3, 4);", "emit(htry(f1, {}, 3)); f1(2);", "id.apply(null, [no_such]);", "id.apply(null, 5); meth0.apply(null, [1]);", "f_add_(1);", "f_each_(1, 2, 3);", "f_each_(2, function(i, u) { emit(i); return u.a.b; }, {});",
  "emit(f_each_(3, function(i, u) { return i + u.n; }, {n: 1}));", "let a16 = [1, 2, 3]; for (let i = 0; i < 3; i++) { a16[i] = a16[i] * 2; } emit(a16);", "let o16 = {}; o16[1.5] = 'a'; o16[2] = 'b'; emit(o16[1.5] + o16[2]);", "emit('some text'[3] + 'x');",
  "emit(id.apply(null, [{x: 1}, 2, 3]));", "emit(mk0.apply({}, [1, 'x']).n + f_add_.apply(null, [1, 2]));", "emit(hcall(function(a, b) { return a + b; }, {}, 1, 2));", "let fw = ffi('int f_wide(int, int (*)(int, int, char *, double, userdata), userdata, int)'); emit(fw(3, function(a, b, s, d, u) { return a + b + s.length + u; }, 10, 4));",
  "let fe = ffi('int f_each(int, int (*)(int, userdata), userdata)'); emit(fe(2, function(i, u) { return 5; }, 1));", "emit(JSON.stringify({a: [1, 2, {b: 'text of a property'}], c: null, d: true, long_property_name: 'x'}));", "emit(JSON.parse('{\"a\": \"\\\\u0041\\\\nxyz\", \"b\": [\"long enough\", {\"c\": [1]}]}'));",
  "load('good.js'); emit(good_fn(2));", "emit(mkstr(f_area_(), 2, 9, true));", "f_hold_16(function(i, u) { emit(i); let o = {}; o[i] = u.x; return o[i] + 1; }, {x: 3});", "f_hold_16(function(i, u) { emit(i); if (i > 2) { return u.no.such; } return 7; }, {x: 3});",
  "let s16 = 'abc'; for (let k in {a: 1, b: 2}) { s16 = s16 + k + JSON.stringify(1.5); } emit(s16);", "emit(isNaN(NaN)); emit(chr(65)); emit(JSON.stringify([1.25, -7, 'x']));", "let q16 = [5]; q16[0]++; q16[0] += 4; q16[3] = 'far'; emit(q16);",
  "Object.create(5);", "emit('text'.slice('x'));", "'text' + {a: 1};", "let n16 = 5; n16[3] = 1;", "let u16 = undefined; emit(u16[12345]);", "let d16 = function(n) { if (n === 0) { die('deep'); } for (let i = 0; i < 2; i++) { d16(n - 1); } };\n\n\nd16(7);",
};
enum { NSCRIPT = sizeof(SCRIPTS) / sizeof(SCRIPTS[0]) };
static const char *const ERRN[] = {"NO_ERROR", "SYNTAX_ERROR", "REFERENCE_ERROR", "TYPE_ERROR", "OUT_OF_MEMORY", "INTERNAL_ERROR", "NOT_IMPLEMENTED", "FILE_OPEN_ERROR", "BAD_ARGUMENTS"};

static void plan16(Rng &r, Plan &p) {
  p.cfg["fill"] = r.chance(0.5) ? 0xA5 : 0;
  p.cfg["text"] = (int64_t) r.below(6);
  p.cfg["gc"] = (int64_t) r.below(3);
  int n = (int) r.range(1, 12);
  static const char *K[] = {"script", "script", "script", "file", "prog", "body", "body", "event", "call", "hosterr", "api", "args"};
  for (int i = 0; i < n; i++) p.add(K[r.below(12)], {(int64_t) r.below(1u << 30)});
  // in one operation other memory than that for texts is refused as well
  p.cfg["at"] = r.chance(0.7) ? (int64_t) r.range(1, n) : 0;
  p.cfg["nth"] = r.chance(0.8) ? (int64_t) (r.below(2) ? r.below(4) : r.below(25)) : -1;
}
struct Out { int code = 0; bool failed = false; std::string trace, text, events, state, extra; };
static std::vector<std::string> split16(const std::string &s, const std::string &d) {
  std::vector<std::string> o;
  size_t p = 0, q;
  while ((q = s.find(d, p)) != std::string::npos) { o.push_back(s.substr(p, q - p)); p = q + d.size(); }
  o.push_back(s.substr(p));
  return o;
}
static bool subseq(const std::vector<std::string> &a, const std::vector<std::string> &b) {
  size_t i = 0;
  for (auto &x : b) if (i < a.size() && a[i] == x) i++;
  return i == a.size();
}
static void setup16(Engine &e) {
  p03_setup(e);
  mjs_set_ffi_resolver(e.m, resolver16);
  ev_fn = nullptr;
  disk::put("good.js", "let good_fn = function(x) { return x * 2; };\nlet good_text = 'text of the library' + chr(65);\n");
  disk::put("fails.js", "let before = {a: 'text'};\nlet ff = function(x) {\n  return x.no.such;\n};\nff({});\nlet behind = 1;\n");
  if (e.exec("let f_hold_16 = ffi('void f_hold16(int (*)(int, userdata), userdata)');\nf_each_ = ffi('int f_each(int, int (*)(int, userdata), userdata)');\nf_hold_16(function(i, u) { emit(i); return i + 1; }, null);\n") != MJS_OK) S.fail("prelude", "prelude failed: %s", e.errtext().c_str());
}
static void report(Engine &e, mjs_err_t err, Out &o) {
  o.code = err;
  o.failed = err != MJS_OK;
  std::string r = err_report(e, err);
  if (r.empty()) return;
  r = r.substr(r.find(' ') + 1);
  size_t p = 0;
  while (r.compare(p, 5, "  at ") == 0) { size_t q = r.find('\n', p); if (q == std::string::npos) break; o.trace += r.substr(p, q + 1 - p); p = q + 1; }
  o.text = r.substr(p);
  if (o.text.compare(0, 2, ": ") == 0) o.text = o.text.substr(2);
  if (!o.text.empty() && o.text.back() == '\n') o.text.pop_back();
}
// one operation in one engine
static Out do_op(Engine &e, const Op &op, Model &m) {
  Out o;
  Rng r((uint64_t) op.a[0]);
  uint64_t sw = e.swallowed;
  e.trace.clear();
  if (op.name == "script") report(e, e.exec(SCRIPTS[r.below(NSCRIPT)]), o);
  else if (op.name == "file") {
    std::string f = strf("f%d.js", (int) r.below(3));
    const char *src = SCRIPTS[r.below(NSCRIPT)];
    disk::put(f, src);
    report(e, mjs_exec_file(e.m, r.chance(0.15) ? "nothing.js" : f.c_str(), nullptr), o);
  } else if (op.name == "prog") {
    GenCfg c;
    c.stmts = (int) r.range(2, 8);
    c.natural = r.chance(0.6);
    c.cps = r.chance(0.5);
    std::string src = print_program(gen_program(r.next(), m, c, strf("g%d", op.id)));
    report(e, e.exec(src), o);
  } else if (op.name == "body") {
    int k;
    do k = (int) r.below((uint64_t) p03_nbody()); while (p03_body(k, 0)[0] == '@');
    mjs_err_t err = e.exec(strf("let b%d = function() { %s };\nemit(b%d());", op.id, p03_body(k, 1), op.id));
    report(e, err, o);
  } else if (op.name == "event") {
    int x = ev_fn ? ev_fn((int) r.below(6), ev_ud) : 0;
    o.failed = ev_fn && x == 0;
    o.extra = strf("event gave %d", x);
  } else if (op.name == "call") {
    static const char *F[] = {"id", "mk0", "f0", "f1", "f_add_", "f_each_", "gz_s0", "no_such", "load", "f_cat_"};
    mjs_val_t res = mjs_mk_undefined(), f = e.global(F[r.below(10)]);
    mjs_err_t err;
    mjs_val_t args[3] = {mjs_mk_number(e.m, 3), mjs_mk_number(e.m, 1.5), mjs_mk_null()};
    int n = (int) r.below(4);
    if (r.chance(0.5)) err = mjs_apply(e.m, &res, f, mjs_mk_undefined(), n, args);
    else if (n == 0) err = mjs_call(e.m, &res, f, mjs_mk_undefined(), 0);
    else if (n == 1) err = mjs_call(e.m, &res, f, mjs_mk_undefined(), 1, args[0]);
    else if (n == 2) err = mjs_call(e.m, &res, f, mjs_mk_undefined(), 2, args[0], args[1]);
    else err = mjs_call(e.m, &res, f, mjs_mk_undefined(), 3, args[0], args[1], args[2]);
    mjs_own(e.m, &res);
    report(e, err, o);
    o.extra = err ? "" : e.dump(res, 60);
    mjs_disown(e.m, &res);
  } else if (op.name == "hosterr") {
    mjs_set_errorf(e.m, MJS_BAD_ARGS_ERROR, "host says %d and %s", (int) r.below(100), "a text");
    int n = (int) r.below(3);
    for (int i = 0; i < n; i++) mjs_prepend_errorf(e.m, MJS_TYPE_ERROR, "level %d of %s", i, "the host");
    report(e, MJS_BAD_ARGS_ERROR, o);
    mjs_set_errorf(e.m, MJS_OK, NULL);
    o.failed = false;
  } else if (op.name == "api") {
    mjs_val_t ob = mjs_mk_object(e.m), key = mjs_mk_number(e.m, (double) r.below(50) + 0.5);
    mjs_own(e.m, &ob);
    mjs_err_t err = mjs_set_v(e.m, ob, key, mjs_mk_number(e.m, 7));
    report(e, err, o);
    o.extra = err ? "" : e.dump(ob, 20);
    mjs_disown(e.m, &ob);
    mjs_set_errorf(e.m, MJS_OK, NULL);
  } else if (op.name == "args") report(e, e.exec(strf("emit(hcall(function(a, b) { return a + b; }, {}, %d, 2)); emit(id.apply(null, [%d, 2])); let o%d = {}; o%d[%d.5] = 1; emit(o%d);", op.id, op.id, op.id, op.id, op.id, op.id)), o);
  for (auto &t : e.trace) o.events += t + "\n";
  o.failed |= e.swallowed != sw;
  o.state = engine_state(e);
  S.sh->ops_done++;
  return o;
}
static void run16(const Plan &p) {
  A.fill = (int) p.get("fill");
  static const double TR[] = {0, 0.05, 0.2, 0.5, 0.9, 1};
  static const double GC[] = {0, 0, 0.05};
  S.armed = false;
  std::vector<Out> ref;
  Rng pr(1);
  // without refusals
  {
    Engine e;
    setup16(e);
    Model m;
    host_bind_model(m);
    GenCfg pc;
    Gen pg(pr, m, pc, "gz");
    m.run(pg.prelude());
    for (auto &op : p.ops) { S.begin_op(1000 + op.id); ref.push_back(do_op(e, op, m)); }
    e.destroy();
    if (alloc_stat().live) S.fail("leak", "memory left after destroy: %s", alloc_live_desc().c_str());
  }
  Engine e;
  e.gc_in_host = true;
  setup16(e);
  Model m;
  host_bind_model(m);
  Rng pr2(1);
  GenCfg pc;
  Gen pg(pr2, m, pc, "gz");
  m.run(pg.prelude());
  alloc_spare = true;
  S.rate[F_GC] = GC[p.get("gc")];
  double tr = TR[p.get("text")];
  for (size_t i = 0; i < p.ops.size(); i++) {
    const Op &op = p.ops[i];
    S.begin_op(op.id);
    bool data = (int64_t) op.id == p.get("at");
    S.log("%s%s", op.name.c_str(), data ? " with refusals" : "");
    alloc_text_rate = tr;
    S.rate[F_ALLOC] = p.get("nth") < 0 ? 0.1 : 0;
    alloc_nth = data ? p.get("nth") : -1;
    alloc_faults = data;
    uint64_t t0 = alloc_text_failed, d0 = alloc_stat().failed;
    S.armed = true;
    Out o = do_op(e, op, m);
    S.armed = false;
    alloc_faults = false;
    alloc_nth = -1;
    bool t = alloc_text_failed != t0, d = alloc_stat().failed != d0;
    const Out &a = ref[i];
    bool same = o.code == a.code && o.events == a.events && o.state == a.state && o.extra == a.extra && o.failed == a.failed;
    S.log("code %d%s%s", o.code, t ? " texts refused" : "", d ? " memory refused" : "");
    if (t) S.probe(o.text.empty() ? "text_refused" : o.text == a.text ? "text_refused_elsewhere" : "text_reduced");
    if (!d && !same) {
      if (o.code != a.code || o.failed != a.failed) S.fail("lost-failure", "operation %s: result %d%s with texts refused, %d%s otherwise", op.name.c_str(), o.code, o.failed ? " (failed)" : "", a.code, a.failed ? " (failed)" : "");
      S.fail("divergence", "operation %s%s behaves differently: %s", op.name.c_str(), t ? " with texts refused" : "", first_diff(a.events + a.state + a.extra, o.events + o.state + o.extra).c_str());
    }
    if (d && !same && !o.failed) S.fail("unreported", "operation %s was refused memory, reported no failure and gave another result: %s", op.name.c_str(), first_diff(a.events + a.state + a.extra, o.events + o.state + o.extra).c_str());
    if (d) S.probe(same ? "refused_without_effect" : o.code == MJS_OUT_OF_MEMORY ? "reported_as_out_of_memory" : o.code ? "reported_as_other_error" : "reported_to_host_code");
    if (!d && !t && (o.text != a.text || o.trace != a.trace)) S.fail("divergence", "operation %s: error '%s' instead of '%s', trace '%s' instead of '%s'", op.name.c_str(), esc(o.text).c_str(), esc(a.text).c_str(), esc(o.trace).c_str(), esc(a.trace).c_str());
    if (!d && t && a.code) {
      if (o.text != ERRN[a.code] && (o.text.empty() || !subseq(split16(o.text, ": "), split16(a.text, ": "))))
        S.fail("wrong-text", "operation %s with texts refused: error '%s' is not part of '%s'", op.name.c_str(), esc(o.text).c_str(), esc(a.text).c_str());
      if (!subseq(split16(o.trace, "\n"), split16(a.trace, "\n"))) S.fail("wrong-text", "operation %s with texts refused: trace '%s' is not part of '%s'", op.name.c_str(), esc(o.trace).c_str(), esc(a.trace).c_str());
    }
    if (d && o.code && (o.text.empty() || o.text.find("(null)") != std::string::npos)) S.fail("wrong-text", "operation %s was refused memory: error text '%s'", op.name.c_str(), esc(o.text).c_str());
    S.state(fnvs(o.text) * 31 + fnvs(o.trace) + (uint64_t) (t * 2 + d));
    // from here on the two differ for good reasons
    if (d) break;
  }
  // the engine goes on working
  S.begin_op(2000);
  alloc_text_rate = -1;
  e.trace.clear();
  mjs_err_t err = e.exec("let zz = {a: [1, 2, 'three' + 'four']}; let zf = function(n) { return n > 0 ? zf(n - 1) + 1 : 0; };\nfor (let i = 0; i < 3; i++) { zz.a.push({i: i}); }\nemit(zz); emit(zf(5)); emit(JSON.stringify(zz.a)); emit(f_add_(2, 3)); emit(id.apply(null, [4]));");
  std::string got;
  for (auto &x : e.trace) got += x + "\n";
  if (err != MJS_OK || got != "@0{a:@1[1,2,'threefour',@2{i:0,},@3{i:1,},@4{i:2,},],}\n5\n'[1,2,\"threefour\",{\"i\":0},{\"i\":1},{\"i\":2}]'\n5\n4\n") S.fail("broken-engine", "a later script %s: %s", err ? "failed" : "gave other results", (err ? e.errtext() : got).c_str());
  if (ev_fn) { e.trace.clear(); int x = ev_fn(1, ev_ud); if (x == 0) S.fail("broken-engine", "a later event failed: %s", e.errtext().c_str()); mjs_set_errorf(e.m, MJS_OK, NULL); }
  mjs_gc(e.m, 1);
  e.destroy();
  if (alloc_stat().live) S.fail("leak", "memory left after destroy: %s", alloc_live_desc().c_str());
  if (disk::open_handles()) S.fail("handle-leak", "%d file handles left", disk::open_handles());
}
static Reg reg16("P16", plan16, run16);
