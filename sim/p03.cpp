// P03: unreachable data is reclaimed and destroy releases everything.
#include "common.h"
extern "C" mjs_err_t mjs_to_string(struct mjs *mjs, mjs_val_t *v, char **p, size_t *sizep, int *need_free);

// ---------------------------------------------------------------- balanced operations
// Bodies of script functions. 'F' fails by design. 'U' is balanced only if it is not interrupted.
struct Body { const char *name, *src, *flags; };
static const Body BODIES[] = {
  {"objects", "let o = {a: 1, b: 'a string long enough to be kept'}; let a = []; for (let i = 0; i < 8; i++) { a.push({i: i, s: 'string value ' + chr(65 + i)}); } o.a = a; return a.length;", ""},
  {"cycle", "let a = {}; let b = {a: a}; a.b = b; a.self = a; return 1;", ""},
  {"strings", "let s = ''; for (let i = 0; i < 20; i++) { s = s + 'abcdefgh' + chr(65 + i); } return s.slice(3, 90).length;", ""},
  {"numkeys", "let o = {}; o[1.5] = 'a'; o[1234567.25] = 'b'; o[true] = 'c'; return o[1.5].length + o[1234567.25].length;", ""},
  {"index", "let s = 'some text'; let a = ['x', 'y']; return s[2] + a[1] + s.at(1) + '';", "F"},
  {"ffi", "let f = ffi('int f_add(int, int)'); return f(1, 2);", ""},
  {"ffi_many", "let f = ffi('char *f_cat(char *, char *)'); let g = ffi('bool f_not(bool)'); let h = ffi('double f_mul(double, double)'); return f('first text', 'second') === '' || g(false) || h(2, 3);", ""},
  {"ffi_unused", "let f = ffi('int f_each(int, int (*)(int, userdata), userdata)'); return 1;", ""},
  {"ffi_args", "return htry(function() { return f_add_(1); }, {}, 1) + htry(function() { return f_cat_('x'); }, {}, 1) + htry(function() { return f_each_(1, 2, 3); }, {}, 1);", ""},
  {"ffi_copy", "let f = f_add_; let g = f; f = null; return g(3, 4);", ""},
  {"callback", "let f = function(i, u) { return i + u.x; }; let u = {x: 1}; let r = f_each_(3, f, u); ffi_cb_free(f, u); return r;", "U"},
  {"callback2", "let f = function(i, u) { return i; }; let u = {x: 1}; let v = 'another user data'; f_each_(1, f, u); f_each_(1, f, v); ffi_cb_free(f, v); ffi_cb_free(f, u); return 1;", "U"},
  {"callback_fails", "let f = function(i, u) { return no_such; }; let u = {x: 1}; htry(function(u) { return f_each_(2, f, u); }, {}, u); ffi_cb_free(f, u); return 1;", "U"},
  {"callback_host", "let u = {x: 1}; f_each_(2, id, u); ffi_cb_free(id, u); return 1;", "U"},
  {"callback_again", "let f = function(i, u) { return i; }; for (let i = 0; i < 4; i++) { f_each_(1, f, null); } ffi_cb_free(f, null); return 1;", "U"},
  {"die", "die('a message of some length ' + chr(65));", "F"},
  {"no_name", "let o = {a: 1}; return o.a + no_such_name;", "F"},
  {"deep_fail", "let f = function(n) { if (n === 0) { return null.x; } return {r: f0(n - 1)}; }; for (let i = 0; i < 3; i++) { for (let k in {a: 1}) { f(0); } }", "F"},
  {"swallowed", "return htry(function(a) { let o = {x: a}; for (let i = 0; i < 2; i++) { return null.x; } }, {}, 1);", ""},
  {"hcall", "return hcall(function(a, b) { let o = {a: a, b: b}; return o; }, {}, 1, 'text of the argument').a;", ""},
  {"hcall_fails", "return hcall(function(a, b) { for (let k in {x: 1}) { return no_such; } }, {}, 1, 2);", "F"},
  {"hcall_twice", "return hcall(function(a, b) { return hcall(function(x, y) { return x; }, {}, a, b); }, {}, 1, 2);", ""},
  {"json", "let j = {a: [1, 2, {b: 'text of a property'}], c: null, d: true, long_property_name: 'x'}; let s = JSON.stringify(j); return JSON.parse(s).a.length;", ""},
  {"json_escapes", "return JSON.parse('{\"a\": \"\\\\u0041\\\\n\\\\\"xyz\", \"b\": [\"long enough to be allocated\"]}').a.length;", ""},
  {"json_bad", "JSON.parse('{\"a\": [1, 2');", "F"},
  {"json_bad2", "JSON.parse('{\"a\": \"text that is long enough\", \"b\" 5}');", "F"},
  {"json_bad3", "return htry(function() { JSON.parse('[1, 2, {\"k\": tru'); }, {}, 1) + htry(function() { JSON.parse('nul'); }, {}, 1);", ""},
  {"json_bad_escape", "JSON.parse('{\"a\": \"text that is long \\\\q\", \"b\": 5}');", "F"},
  {"json_cyclic", "let o = {x: [1]}; o.o = o; o.x.push(o); return JSON.stringify(o).length;", ""},
  {"json_fn", "return JSON.stringify({f: function() {}, n: 5, e: emit}).length;", ""},
  {"json_callable", "JSON.stringify(JSON.stringify); JSON.stringify(f_add_); return JSON.stringify([gc, f_add_, {f: f_add_}]).length;", "?"},
  {"apply", "id.apply(null, [{x: 1}]); meth0.apply({n: 4}, [2]); return f_add_.apply(null, [1, 2]) + mk0.apply({}, [1, 'x']).n;", ""},
  {"apply_fails", "let o = {m: 5}; o.m.apply(null, [1]);", "F"},
  {"apply_fails2", "f_add_.apply(null, [1]);", "F"},
  {"apply_fails3", "htry(function() { meth0.apply(null, [1]); }, {}, 1); htry(function() { id.apply(); }, {}, 1); htry(function() { id.apply(1, 2); }, {}, 1); return 1;", ""},
  {"hstruct", "return hstruct(5, 'text of the structure').n;", ""},
  {"load_again", "load('lib.js'); return lib_fn(2);", ""},
  {"load_missing", "load('no_such_file.js');", "F"},
  {"load_bad", "load('bad.js');", "F"},
  {"hset_hdel", "let o = {}; for (let i = 0; i < 5; i++) { hset(o, 'key_of_object_' + chr(65 + i), 'value ' + chr(66)); } for (let k in o) { hdel(o, k); } return o;", ""},
  {"loops", "for (let i = 0; i < 5; i++) { let x = {i: i}; if (i === 3) { break; } for (let k in x) { if (k === 'z') { continue; } } let w = 3; while (w > 0) { w--; if (w === 1) { break; } } } return 1;", ""},
  {"loop_return", "for (let i = 0; i < 3; i++) { for (let k in {a: 1, b: 2}) { let w = 2; while (w > 0) { return {r: k}; } } } return null;", ""},
  {"bad_sigs", "let l = ['int nope(int)', 'garbage', 'int f_add(int, int', 'int f_each(int, int (*)(int userdata), userdata)', 'void f_x(struct foo)', 'int f_each(int, int (*)(int, int), userdata)', 'int f_add(int, (*)(userdata))', 'int f_each(int, int (*)(int, userdata))', 'float f_add(badtype)', 'int f_each(userdata, userdata)', '', 'int f_each(int, int (*)(int, userdata), int (*)(userdata), userdata)', 'int f_add(int,int,int,int,int,int,int,int,int)']; for (let i = 0; i < l.length; i++) { htry(function(s) { let f = ffi(s); return 1; }, {}, l[i]); } return 1;", ""},
  {"bad_sig_direct", "ffi('int f_add(int, struct foo)');", "F"},
  {"bad_sig_cb", "ffi('int f_each(int, int (*)(struct foo, userdata), userdata)');", "F"},
  {"create", "let p = {a: 1}; for (let i = 0; i < 6; i++) { p = Object.create(p); } return p.a;", ""},
  {"create_fails", "Object.create(5);", "F"},
  {"arrays", "let a = []; for (let i = 0; i < 9; i++) { a.push('element ' + chr(65 + i)); } a.splice(2, 3, 'new element'); a.splice(0, 1); a.splice(-1, 1); return a.length;", ""},
  {"mkstr_copy", "let p = f_area_(); return mkstr(p, 2, 9, true).length;", ""},
  {"mkstr_foreign", "let p = f_area_(); return mkstr(p, 2, 9).length + mkstr(p, 7).length;", "K"},
  {"set_fails", "let n = 5; n[3] = 1;", "F"},
  {"set_fails2", "let s = 'text'; s[1.25] = 'x';", "F"},
  {"set_fails3", "null[12345] = 1;", "F"},
  {"get_fails", "let u = undefined; return u[12345];", "F"},
  {"set_temp", "gz_s0 = 'a new value of a global string' + chr(65); gz_o0.extra = {x: 'y'}; hdel(gz_o0, 'extra'); return 1;", ""},
  {"not_callable", "let o = {x: {y: 5}}; o.x.y(1, 2);", "F"},
  {"forin_fails", "for (let k in 'text') { emit(k); }", "F"},
  {"add_fails", "return 'text' + {a: 1};", "F"},
  {"arg_fails", "return 'some text'.slice('x') + chr('x') + 'abc'.indexOf(5);", "?"},
  {"gc", "let o = {a: 'text text text'}; gc(true); let p = {o: o}; gc(false); return p.o.a.length;", ""},
  {"s2o", "return isNaN(NaN) || JSON.stringify(1.5);", ""},
  {"closures", "let fs = []; for (let i = 0; i < 4; i++) { fs.push(function(x) { return function(y) { return y; }; }); } return fs[2](1)(2);", ""},
  {"this", "let o = {n: 1, f: function(x) { this.n = x; return this.g(x); }, g: function(y) { return this.n + y; }}; return o.f(4);", ""},
  {"recursion", "return f0(12);", ""},
  {"recursion_fails", "f1(12);", "F"},
  {"keep", "keep(1, {a: 'kept text that is long'}); keep(1, null); return kept(1);", ""},
  {"typeof", "return typeof({}) + typeof('x') + typeof(gc) + typeof(f0) + typeof(f_add_);", ""},
  {"ffi_as_arg", "return 'text'.slice(f_add_);", "?"},
  {"ffi_as_arg2", "return f_add_(f_add_, 1);", "?"},
  {"f_same", "return f_same_('a text that goes through C').length;", ""},
  // done by the host, see host_body()
  {"@syntax_error", "let 5 = ;", ""}, {"@syntax_error2", "function(", ""}, {"@syntax_error3", "let a = {b: [1, 2; }", ""}, {"@syntax_error4", "if (1) { let x = 'unterminated", ""},
  {"@missing_file", "", ""}, {"@read_fault", "", ""}, {"@bad_file", "", ""}, {"@own", "", ""}, {"@host_objects", "", ""}, {"@host_errors", "", ""},
  {"@event", "", ""}, {"@event_fails", "", ""}, {"@call_nothing", "", ""}, {"@apply", "", ""}, {"@set_del", "", ""}, {"@call_ffi", "", ""}, {"@api_misc", "", ""}, {"@api_errors", "", ""},
};
enum { NBODY = sizeof(BODIES) / sizeof(BODIES[0]) };

static char area[64] = "0123456789abcdefghijklmnopqrstuvwxyz";
extern "C" {
static void *f_area(void) { return area; }
static char *f_same3(char *s) { return s; }
typedef int (*hold_cb)(int, void *);
static hold_cb held_cb;
static void *held_ud;
static void f_hold(hold_cb cb, void *ud) { held_cb = cb; held_ud = ud; }
}
static void *resolver03(void *h, const char *n) {
  if (!strcmp(n, "f_area")) return (void *) f_area;
  if (!strcmp(n, "f_same3")) return (void *) f_same3;
  if (!strcmp(n, "f_hold")) return (void *) f_hold;
  return host_dlsym(h, n);
}
static const char *PRE =
  "let f_area_ = ffi('void *f_area()');\nlet f_same_ = ffi('char *f_same3(char *)');\nlet f_hold_ = ffi('void f_hold(int (*)(int, userdata), userdata)');\n"
  "let f0 = function(n) { let o = {n: n}; return n > 0 ? f0(n - 1) + o.n : 0; };\n"
  "let f1 = function(n) { let o = {n: n}; for (let i = 0; i < 2; i++) { if (n === 0) { return no_such; } f1(n - 1); } };\n"
  "let ev = function(i, u) { let o = {i: i, t: 'text in the event'}; return i + u.x; };\nlet evf = {n: 0, f: null};\n"
  "let ev2 = function(i, u) { let o = {i: i}; if (i > 4) { for (let k in o) { return null.x; } } return i + u.x; };\n"
  "f_hold_(ev2, {x: 3});\nload('lib.js');\n";

static void host_body(Engine &e, const Body &b, int it) {
  std::string n = b.name + 1;
  if (n.substr(0, 12) == "syntax_error") { if (e.exec(b.src) == MJS_OK) S.fail("missed-error", "a syntax error was accepted"); }
  else if (n == "missing_file") mjs_exec_file(e.m, "nofile.js", nullptr);
  else if (n == "bad_file") mjs_exec_file(e.m, "bad.js", nullptr);
  else if (n == "read_fault") {
    static const FK K[] = {F_READ_ERR, F_READ_SHORT, F_SEEK, F_TELL, F_OPEN};
    FK k = K[it % 5];
    double s = S.rate[k];
    S.rate[k] = 1;
    disk::faults = true;
    bool ar = S.armed;
    S.armed = true;
    if (mjs_exec_file(e.m, "lib2.js", nullptr) == MJS_OK) S.fail("missed-error", "a file whose read failed was run");
    S.armed = ar;
    disk::faults = false;
    S.rate[k] = s;
  } else if (n == "own") {
    mjs_val_t v[7];
    for (auto &x : v) { x = mkstr(e.m, "owned for a while"); mjs_own(e.m, &x); }
    for (int i = 0; i < 7; i++) mjs_disown(e.m, &v[(i * 3) % 7]);
  } else if (n == "host_objects") {
    mjs_val_t o = mjs_mk_object(e.m);
    mjs_own(e.m, &o);
    mjs_val_t a = mjs_mk_array(e.m);
    mjs_set(e.m, o, "arr", ~0, a);
    for (int i = 0; i < 5; i++) mjs_array_push(e.m, a, mkstr(e.m, "element pushed by the host"));
    mjs_array_del(e.m, a, 2);
    mjs_disown(e.m, &o);
  } else if (n == "host_errors") {
    for (int i = 0; i < 3; i++) mjs_set_errorf(e.m, MJS_TYPE_ERROR, "host error number %d", i);
    mjs_prepend_errorf(e.m, MJS_TYPE_ERROR, "prefix %d", 7);
    mjs_set_errorf(e.m, MJS_OK, NULL);
  } else if (n == "event" || n == "event_fails") {
    for (int i = 0; i < 2; i++) held_cb(n == "event" ? 1 : 9, held_ud);
    mjs_set_errorf(e.m, MJS_OK, NULL);
  } else if (n == "call_nothing") {
    mjs_val_t r = mjs_mk_undefined();
    if (mjs_call(e.m, &r, mjs_mk_number(e.m, 5), mjs_mk_undefined(), 0) == MJS_OK) S.fail("missed-error", "calling a number succeeded");
  } else if (n == "apply") {
    mjs_val_t r = mjs_mk_undefined(), args[3] = {mjs_mk_number(e.m, 2), mkstr(e.m, "argument that is long"), mjs_mk_null()};
    mjs_own(e.m, &args[1]);
    mjs_apply(e.m, &r, e.global("mk0"), mjs_mk_undefined(), 2, args);
    mjs_apply(e.m, &r, e.global("id"), mjs_mk_undefined(), 3, args);
    mjs_disown(e.m, &args[1]);
  } else if (n == "set_del") {
    mjs_val_t g = mjs_get_global(e.m);
    mjs_set(e.m, g, "set_by_the_host", ~0, mkstr(e.m, "value set by the host"));
    mjs_del(e.m, g, "set_by_the_host", ~0);
  } else if (n == "call_ffi") {
    mjs_val_t r = mjs_mk_undefined();
    mjs_call(e.m, &r, e.global("f_add_"), mjs_mk_undefined(), 2, mjs_mk_number(e.m, 2), mjs_mk_number(e.m, 3));
    mjs_call(e.m, &r, e.global("f_add_"), mjs_mk_undefined(), 1, mjs_mk_number(e.m, 2));
  } else if (n == "api_misc") {
    char *p = NULL;
    int need_free = 0;
    size_t len;
    mjs_val_t v = mjs_mk_number(e.m, 1234.5);
    if (mjs_to_string(e.m, &v, &p, &len, &need_free) == MJS_OK && need_free) sim_free(p);
    mjs_val_t o = e.global("gz_o0");
    mjs_val_t it2 = mjs_mk_undefined();
    while (!mjs_is_undefined(mjs_next(e.m, o, &it2))) {}
  } else if (n == "api_errors") {
    mjs_val_t five = mjs_mk_number(e.m, 5), key = mjs_mk_number(e.m, 123456.5), o = e.global("gz_o0");
    mjs_set_v(e.m, five, key, five);
    mjs_set_v(e.m, mjs_mk_null(), key, five);
    mjs_set_v(e.m, o, o, five);
    mjs_set(e.m, five, "name", ~0, five);
    mjs_get_v(e.m, five, key);
    mjs_get_v(e.m, o, o);
    mjs_get_v_proto(e.m, o, key);
    mjs_del(e.m, five, "name", ~0);
    mjs_del(e.m, o, "no such name", ~0);
    mjs_array_push(e.m, five, five);
    mjs_array_set(e.m, mjs_mk_undefined(), 3, five);
    mjs_val_t x = five;
    mjs_disown(e.m, &x);
    char buf[24];
    for (mjs_val_t v : {five, key, o, e.global("gz_s0"), e.global("id"), e.global("f_add_"), e.global("f0")}) mjs_sprintf(v, e.m, buf, sizeof(buf));
    mjs_strerror(e.m, MJS_TYPE_ERROR);
  }
}

// ---------------------------------------------------------------- plan
static void plan03(Rng &r, Plan &p) {
  p.cfg["fill"] = r.chance(0.5) ? 0xA5 : 0;
  if (r.chance(0.12)) {
    p.cfg["part"] = 2;
    p.cfg["what"] = (int64_t) r.below(4);
    p.cfg["gc"] = r.chance(0.3);
    int n = (int) r.range(1, 3);
    for (int i = 0; i < n; i++) p.add("prog", {(int64_t) r.below(1u << 30), (int64_t) r.below(3)});
    return;
  }
  if (r.chance(0.55)) {
    p.cfg["part"] = 0;
    p.cfg["faults"] = r.chance(0.5) ? 0 : (int64_t) r.below(4);
    p.cfg["mode"] = (int64_t) r.below(3);
    p.cfg["fseed"] = (int64_t) r.below(1u << 30);
    int n = (int) r.range(1, 3);
    for (int i = 0; i < n; i++) p.add("body", {(int64_t) r.below(NBODY)});
    return;
  }
  p.cfg["part"] = 1;
  p.cfg["faults"] = (int64_t) r.below(16);
  p.cfg["gc"] = (int64_t) r.below(3);
  p.cfg["jsc"] = r.chance(0.3);
  p.cfg["disown"] = r.chance(0.7);
  static const char *K[] = {"chunk", "chunk", "file", "file", "load", "body", "body", "body", "syntax", "gc", "jsc", "hold", "open"};
  int n = (int) r.range(1, 14);
  for (int i = 0; i < n; i++) p.add(K[r.below(13)], {(int64_t) r.below(1u << 30)});
}
static void setup03(Engine &e) {
  e.create();
  held_cb = nullptr;
  held_ud = nullptr;
  mjs_set_ffi_resolver(e.m, resolver03);
  disk::put("lib.js", "let lib_fn = function(x) { return x * 2; };\nlet lib_text = 'text of the library';\n");
  disk::put("lib2.js", "let lib2 = {a: 1, b: 'text of the second library'};\n");
  disk::put("bad.js", "let ok_part = {a: 'a string before the mistake'};\nlet x = = 5;\n");
  Model m;
  host_bind_model(m);
  run_prelude(e, m);
  if (e.exec(PRE) != MJS_OK) S.fail("prelude", "prelude failed: %s", e.errtext().c_str());
}
static void call_body(Engine &e, const std::string &fn) {
  mjs_val_t r = mjs_mk_undefined();
  mjs_call(e.m, &r, e.global(fn.c_str()), mjs_mk_undefined(), 0);
}
// shared with P15 and P16
void *p03_resolve(void *h, const char *n) { return resolver03(h, n); }
int p03_nbody() { return NBODY; }
const char *p03_body(int i, int what) { return what == 0 ? BODIES[i].name : what == 1 ? BODIES[i].src : BODIES[i].flags; }
void p03_setup(Engine &e) { setup03(e); }
void p03_event(int i) { held_cb(i, held_ud); }
static bool has(const Body &b, char c) { return strchr(b.flags, c) != nullptr; }

static void growth(const Plan &p) {
  Engine e;
  S.armed = false;
  setup03(e);
  std::vector<int> bs;
  int faults = (int) p.get("faults"), mode = (int) p.get("mode");
  std::string names;
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    int k = (int) op.a[0];
    const Body &b = BODIES[k];
    if ((faults & 1) && has(b, 'U')) continue;
    if (has(b, 'K') && bs.size()) continue;
    bool dup = false;
    for (int x : bs) if (x == k) dup = true;
    if (dup) continue;
    if (b.name[0] != '@' && e.exec(strf("let body%d = function() { %s };", k, b.src)) != MJS_OK) S.fail("prelude", "body %s does not compile: %s", b.name, e.errtext().c_str());
    bs.push_back(k);
    names += std::string(names.empty() ? "" : "+") + b.name;
    if (has(b, 'K')) break;
  }
  if (bs.empty()) { S.armed = false; e.destroy(); return; }
  S.log("bodies %s faults %d", names.c_str(), faults);
  Rng fr((uint64_t) p.get("fseed"));
  S.begin_op(1000);
  auto iter = [&](int it) {
    for (int k : bs) {
      const Body &b = BODIES[k];
      S.armed = true;
      S.steps_op = 0;
      if (faults & 1) S.rate[F_FAIL_OP] = fr.chance(0.4) ? 0.02 : 0;
      if (faults & 2) { S.rate[F_GC] = fr.chance(0.2) ? 0.05 : 0; S.rate[F_GC_HOST] = 0.1; }
      uint64_t f0 = tl_fails;
      if (b.name[0] == '@') host_body(e, b, it);
      else {
        mjs_val_t r = mjs_mk_undefined();
        mjs_err_t err;
        if (mode == 1 && (it & 1)) { mjs_val_t a[1] = {mjs_mk_null()}; err = mjs_apply(e.m, &r, e.global(strf("body%d", k).c_str()), mjs_mk_undefined(), 1, a); }
        else err = mjs_call(e.m, &r, e.global(strf("body%d", k).c_str()), mjs_mk_undefined(), 0);
        if (tl_fails == f0 && !has(b, '?') && (err != MJS_OK) != has(b, 'F'))
          S.fail(err ? "spurious-error" : "missed-error", "operation %s %s (%s) in iteration %d", b.name, err ? "failed" : "succeeded", e.errtext().c_str(), it);
      }
      S.armed = false;
      e.trace.clear();
      e.cplog.clear();
      if (mode == 2) mjs_gc(e.m, it & 1);
    }
    S.sh->ops_done++;
  };
  auto measure = [&]() { mjs_gc(e.m, 1); mjs_gc(e.m, 1); return alloc_stat(); };
  enum { WARM = 70, K = 240 };
  for (int i = 0; i < WARM; i++) iter(i);
  AllocStat a = measure();
  for (int i = 0; i < K; i++) iter(WARM + i);
  AllocStat b = measure();
  int64_t slack = faults ? 5000 : 900;
  int64_t grown = (int64_t) b.live_bytes - (int64_t) a.live_bytes;
  // growth by high-water marks stops; growth by leaking goes on
  if (grown > slack) {
    for (int i = 0; i < 2 * K; i++) iter(WARM + K + i);
    AllocStat c = measure();
    int64_t more = (int64_t) c.live_bytes - (int64_t) b.live_bytes;
    if (more > grown && more > slack) S.fail("growth", "repeating '%s' %d times grew live memory by %lld bytes after full collections, %d more times by %lld bytes", names.c_str(), (int) K, (long long) grown, 2 * K, (long long) more);
    S.probe("high_water_growth");
  }
  S.state(fnvs(names) + (uint64_t) faults);
  e.destroy();
  if (alloc_stat().live) S.fail("leak", "memory left after destroy (operations %s): %s", names.c_str(), alloc_live_desc().c_str());
}

static void history(const Plan &p) {
  Engine e;
  S.armed = false;
  setup03(e);
  Model m;
  host_bind_model(m);
  host_bind_cp(m, &e);
  // a model that follows is not needed: programs are made against the prelude only
  Rng pr(1);
  GenCfg pc;
  Gen pg(pr, m, pc, "gz");
  auto pre = pg.prelude();
  m.run(pre);
  int fl = (int) p.get("faults");
  mjs_set_generate_jsc(e.m, (int) p.get("jsc"));
  static const double GC[] = {0, 0.05, 0.3};
  S.rate[F_GC] = GC[p.get("gc")];
  S.rate[F_GC_HOST] = 0.2;
  if (fl & 1) S.rate[F_FAIL_OP] = 0.003;
  if (fl & 2) S.rate[F_FAIL_HOST] = 0.1;
  if (fl & 4) for (FK k : {F_OPEN, F_SEEK, F_TELL, F_READ_SHORT, F_READ_ERR, F_WRITE_ERR, F_WRITE_SHORT, F_CLOSE, F_STAT, F_MMAP}) S.rate[k] = 0.08;
  disk::faults = fl & 4;
  e.emit_fails = fl & 2;
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    S.armed = true;
    Rng r((uint64_t) op.a[0]);
    S.log("%s", op.name.c_str());
    if (op.name == "chunk" || op.name == "file" || op.name == "load") {
      GenCfg c;
      c.stmts = (int) r.range(2, 8);
      c.natural = r.chance(0.3);
      c.cps = r.chance(0.5);
      std::string src = print_program(gen_program(r.next(), m, c, strf("g%d", op.id)));
      if (op.name == "chunk") e.exec(src);
      else {
        std::string f = strf("s%d.js", (int) r.below(3));
        disk::put(f, src);
        if (op.name == "file") mjs_exec_file(e.m, f.c_str(), nullptr);
        else e.exec(r.chance(0.5) ? "load('" + f + "');" : "let ns" + std::to_string(op.id) + " = {}; load('" + f + "', ns" + std::to_string(op.id) + ");");
      }
    } else if (op.name == "body" || op.name == "hold" || op.name == "open") {
      int k = (int) r.below(NBODY);
      const Body &b = BODIES[k];
      if (op.name == "hold") e.exec(strf("let hf%d = function(i, u) { return i + u.x; }; f_hold_(hf%d, {x: %d, t: 'user data text'});", op.id, op.id, op.id));
      else if (op.name == "open") e.exec(strf("let of%d = function(i, u) { return i; }; let ou%d = {t: 'never freed'}; f_each_(2, of%d, ou%d); let oi%d = ffi('char *f_cat(char *, char *)');", op.id, op.id, op.id, op.id, op.id));
      else if (b.name[0] == '@') { if (strncmp(b.name, "@read_fault", 11) && strncmp(b.name, "@syntax", 7) && strncmp(b.name, "@call_nothing", 13)) host_body(e, b, op.id); }
      else if (e.exec(strf("let body%d_%d = function() { %s };", op.id, k, b.src)) == MJS_OK) { for (int i = 0; i < 3; i++) call_body(e, strf("body%d_%d", op.id, k)); }
    } else if (op.name == "syntax") e.exec("let 5 = ;");
    else if (op.name == "gc") mjs_gc(e.m, (int) r.below(2));
    else if (op.name == "jsc") mjs_set_generate_jsc(e.m, (int) r.below(2));
    e.trace.clear();
    S.sh->ops_done++;
  }
  S.armed = false;
  disk::faults = false;
  if (p.get("disown")) e.destroy();
  else { engines.erase(e.m); mjs_destroy(e.m); e.m = nullptr; }
  if (alloc_stat().live) S.fail("leak", "memory left after destroy: %s", alloc_live_desc().c_str());
  if (disk::open_handles()) S.fail("handle-leak", "%d file handles left after destroy", disk::open_handles());
  if (disk::mappings()) S.fail("mapping-leak", "%d file mappings left after destroy", disk::mappings());
}
// A program that fails keeps nothing that the same program does not keep when it succeeds.
// Compiled code is kept by design, so the two are run equally often in two engines.
static const char *RPROGS[] = {"id(q.x.y);", "id(1, 'text', q.x.y);", "f_add_(1, q.x.y);", "let o = {f: id}; o.f(1, q.x.y);", "({f: id}).f(id(id(q.x.y)));",
  "for (let i = 0; i < 2; i++) { for (let k in {a: 1}) { id(2, q.x.y); } }", "hcall(function(a, b) { return id(q.x.y); }, {}, 1, 2);",
  "(function() { let t = ['some', 'text']; t.push(q.x.y); return t; })();", "let w = 2; while (w > 0) { w--; { let z = {a: id(q.x.y)}; } }",
  "id(hcall(id, null, id(q.x.y), 1));", "[1, 2, id(q.x.y)]; ({a: q.x.y});", "(function() { return id.apply(null, [q.x.y]); })();", "f_len_('text ' + q.x.y);",
  "htry(function() { return id(q.x.y); }, {}, 1);", "id(htry(function() { return f_cat_('a', id(q.x.y)); }, {}, 1));", "'abc'.slice(q.x.y - 1);",
  "let r = mk0(1, q.x.y).s; mk0(q.x.y, 'x').m(q.x.y);", "(function(n) { return n > 0 ? f0(n) + id(q.x.y) : 0; })(3);", "JSON.parse('[' + id(q.x.y) + ']');"};
enum { NRPROG = sizeof(RPROGS) / sizeof(RPROGS[0]) };
static void retained(const Plan &p) {
  std::vector<std::string> src;
  std::vector<int> how;
  std::string names;
  for (auto &op : p.ops) { src.push_back(RPROGS[op.a[0] % NRPROG]); how.push_back((int) op.a[1]); names += src.back() + " "; }
  if (src.empty()) return;
  enum { WARM = 60, K = 300 };
  int64_t kept[2], more[2];
  // a value of q that lets the programs succeed, and one that lets them fail
  for (int bad = 0; bad < 2; bad++) {
    Engine e;
    S.armed = false;
    S.begin_op(1000 + bad);
    setup03(e);
    // both engines are given the same text
    if (e.exec("let q_good = {x: {y: '1'}}; let q_bad = {z: {y: '1'}}; let q = null;") != MJS_OK) S.fail("prelude", "prelude failed: %s", e.errtext().c_str());
    mjs_set(e.m, mjs_get_global(e.m), "q", ~0, e.global(bad ? "q_bad" : "q_good"));
    for (size_t i = 0; i < src.size(); i++) disk::put(strf("r%zu.js", i), src[i]);
    int fails = 0, runs = 0;
    auto iter = [&](int it) {
      for (size_t i = 0; i < src.size(); i++) {
        S.steps_op = 0;
        mjs_err_t err = how[i] == 0 ? e.exec(src[i]) : how[i] == 1 ? mjs_exec_file(e.m, strf("r%zu.js", i).c_str(), nullptr) : e.exec(strf("load('r%zu.js');", i));
        fails += err != MJS_OK;
        runs++;
        if (p.get("gc") && it % 16 == 0) mjs_gc(e.m, 1);
      }
      e.trace.clear();
      S.sh->ops_done++;
    };
    auto measure = [&]() { mjs_set_errorf(e.m, MJS_OK, NULL); mjs_gc(e.m, 1); mjs_gc(e.m, 1); return (int64_t) alloc_stat().live_bytes; };
    for (int i = 0; i < WARM; i++) iter(i);
    int64_t a = measure();
    for (int i = 0; i < K; i++) iter(WARM + i);
    int64_t b = measure();
    for (int i = 0; i < 2 * K; i++) iter(WARM + K + i);
    int64_t c = measure();
    kept[bad] = b - a;
    more[bad] = c - b;
    if (bad && fails) S.probe("failing_programs_repeated");
    S.log("%s engine: %d of %d runs failed", bad ? "failing" : "succeeding", fails, runs);
    S.state(fnvs(names) + (uint64_t) bad);
    e.destroy();
    if (alloc_stat().live) S.fail("leak", "memory left after destroy (programs %s): %s", names.c_str(), alloc_live_desc().c_str());
  }
  if (S.verbose) printf("kept %lld %lld, then %lld %lld\n", (long long) kept[0], (long long) kept[1], (long long) more[0], (long long) more[1]);
  int64_t d1 = kept[1] - kept[0], d2 = more[1] - more[0];
  if (d1 + d2 > 2500 && d2 > 1200) S.fail("growth", "running '%s' %d times left %lld bytes more when it fails than when it succeeds, %d more times %lld bytes", names.c_str(), (int) K, (long long) d1, 2 * K, (long long) d2);
}
static void run03(const Plan &p) {
  A.fill = (int) p.get("fill");
  if (p.get("part") == 2) retained(p);
  else if (p.get("part")) history(p);
  else growth(p);
}
static Reg reg03("P03", plan03, run03);
