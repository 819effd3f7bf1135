#include "host.h"
#include <cmath>

std::map<struct mjs *, Engine *> engines;
void Sim::run_reset() {
  disk::reset();
  alloc_reset();
  engines.clear();
  on_before_op = nullptr;
  on_after_op = nullptr;
  on_host_call = nullptr;
  tl_fails = 0;
}
Engine *eng_of(struct mjs *m) { auto it = engines.find(m); return it == engines.end() ? nullptr : it->second; }

mjs_val_t mkstr(struct mjs *m, const std::string &s) { return mjs_mk_string(m, s.data(), s.size(), 1); }
std::string getstr(struct mjs *m, mjs_val_t v) {
  size_t n = 0;
  const char *p = mjs_get_string(m, &v, &n);
  return p ? std::string(p, n) : std::string();
}
static std::string numstr(double d) {
  if (std::isnan(d)) return "NaN";
  if (d == (long long) d && std::fabs(d) < 1e15) return strf("%lld", (long long) d);
  return strf("%.17g", d);
}

// ---------------------------------------------------------------- rendering through the public API
struct EDump {
  struct mjs *m;
  std::map<uint64_t, int> ids;
  int left;
  std::string out;
  void go(mjs_val_t v) {
    if (left-- <= 0) { out += "…"; return; }
    if (mjs_is_undefined(v)) out += "undefined";
    else if (mjs_is_null(v)) out += "null";
    else if (mjs_is_boolean(v)) out += mjs_get_bool(m, v) ? "true" : "false";
    else if (mjs_is_number(v)) out += numstr(mjs_get_double(m, v));
    else if (mjs_is_string(v)) out += "'" + getstr(m, v) + "'";
    else if (mjs_is_function(v)) out += "<fn>";
    else if (mjs_is_foreign(v)) out += "<ptr>";
    else if (mjs_is_array(v)) {
      if (seen(v)) return;
      out += strf("@%d[", ids[v & 0xffffffffffffull]);
      unsigned long n = mjs_array_length(m, v);
      if (n > 20000) S.fail("wrong-value", "array length is %lu", n);
      for (unsigned long i = 0; i < n; i++) { go(mjs_array_get(m, v, i)); out += ","; }
      out += "]";
    } else if (mjs_is_object(v)) {
      if (seen(v)) return;
      out += strf("@%d{", ids[v & 0xffffffffffffull]);
      std::map<std::string, mjs_val_t> ps;
      props(v, ps);
      for (auto &p : ps) { out += p.first + ":"; go(p.second); out += ","; }
      out += "}";
    } else out += "<ffi>";
  }
  void props(mjs_val_t v, std::map<std::string, mjs_val_t> &ps) {
    mjs_val_t it = mjs_mk_undefined(), key;
    int guard = 0;
    while (!mjs_is_undefined(key = mjs_next(m, v, &it))) {
      if (++guard > 50000) S.fail("wrong-value", "property list of an object does not end");
      std::string k = getstr(m, key);
      if (ps.count(k)) S.fail("wrong-value", "property '%s' occurs twice in one object", esc(k, 60).c_str());
      ps[k] = mjs_get_v(m, v, key);
    }
  }
  bool seen(mjs_val_t v) {
    uint64_t a = v & 0xffffffffffffull;
    auto it = ids.find(a);
    if (it != ids.end()) { out += strf("#%d", it->second); return true; }
    int id = (int) ids.size();
    ids[a] = id;
    return false;
  }
};
std::string val_render(struct mjs *m, mjs_val_t v, int maxnodes) { EDump d{m, {}, maxnodes, ""}; d.go(v); return d.out; }
std::string Engine::dump(mjs_val_t v, int maxnodes) { return val_render(m, v, maxnodes); }
std::string Engine::dump_globals(int maxnodes, const std::vector<std::pair<std::string, mjs_val_t>> *extra) {
  EDump d{m, {}, maxnodes, ""};
  std::map<std::string, mjs_val_t> ps;
  d.props(mjs_get_global(m), ps);
  for (auto &p : ps) {
    if (skip.count(p.first)) continue;
    d.out += p.first + "=";
    d.go(p.second);
    d.out += "\n";
  }
  if (extra) for (auto &x : *extra) { d.out += x.first + "="; d.go(x.second); d.out += "\n"; }
  return d.out;
}

// ---------------------------------------------------------------- host functions
std::function<void(Engine *)> on_host_call;
void Engine::maybe_host_gc() {
  if (on_host_call) on_host_call(this);
  if (!gc_in_host || !S.armed) return;
  if (S.decide(F_GC_HOST)) mjs_gc(m, 0);
  if (S.decide(F_GC_HOSTFULL)) mjs_gc(m, 1);
}
static bool host_fails(Engine *e) {
  if (S.armed && S.decide(F_FAIL_HOST)) {
    tl_fails++;
    mjs_set_errorf(e->m, MJS_INTERNAL_ERROR, "simulated host failure");
    mjs_return(e->m, mjs_mk_undefined());
    return true;
  }
  return false;
}
static void h_emit(struct mjs *m) {
  Engine *e = eng_of(m);
  e->maybe_host_gc();
  if (e->emit_fails && host_fails(e)) return;
  e->trace.push_back(e->dump(mjs_arg(m, 0), 60));
  S.log("e%d emit %s", e->id, esc(e->trace.back(), 100).c_str());
  mjs_return(m, mjs_mk_undefined());
}
static void h_id(struct mjs *m) {
  Engine *e = eng_of(m);
  e->maybe_host_gc();
  mjs_return(m, mjs_arg(m, 0));
}
// builds {n, s, o, a, m} step by step, collecting in between
static void h_mkobj(struct mjs *m) {
  Engine *e = eng_of(m);
  mjs_val_t o = mjs_mk_object(m), a = mjs_mk_undefined(), s = mjs_mk_undefined();
  mjs_own(m, &o);
  mjs_own(m, &a);
  mjs_own(m, &s);
  e->maybe_host_gc();
  mjs_set(m, o, "n", ~0, mjs_arg(m, 0));
  s = mkstr(m, getstr(m, mjs_arg(m, 1)) + "-host");
  e->maybe_host_gc();
  mjs_set(m, o, "s", ~0, s);
  a = mjs_mk_array(m);
  e->maybe_host_gc();
  mjs_array_push(m, a, s);
  mjs_array_push(m, a, mjs_arg(m, 1));
  e->maybe_host_gc();
  mjs_set(m, o, "a", ~0, a);
  mjs_set(m, o, "o", ~0, mjs_mk_null());
  mjs_set(m, o, "m", 1, mjs_get(m, mjs_get_global(m), "meth0", ~0));
  e->maybe_host_gc();
  if (!mjs_disown(m, &a)) S.fail("own", "mjs_disown of an owned value reported nothing was owned");
  if (!mjs_disown(m, &o)) S.fail("own", "mjs_disown of an owned value reported nothing was owned");
  if (!mjs_disown(m, &s)) S.fail("own", "mjs_disown of an owned value reported nothing was owned");
  mjs_return(m, o);
}
static void h_keep(struct mjs *m) {
  Engine *e = eng_of(m);
  e->maybe_host_gc();
  int i = mjs_get_int(m, mjs_arg(m, 0));
  e->slot[i % NSLOT] = mjs_arg(m, 1);
  mjs_return(m, mjs_mk_undefined());
}
static void h_kept(struct mjs *m) {
  Engine *e = eng_of(m);
  e->maybe_host_gc();
  int i = mjs_get_int(m, mjs_arg(m, 0));
  mjs_return(m, e->slot[i % NSLOT]);
}
static void h_hset(struct mjs *m) {
  Engine *e = eng_of(m);
  e->maybe_host_gc();
  mjs_set_v(m, mjs_arg(m, 0), mjs_arg(m, 1), mjs_arg(m, 2));
  mjs_return(m, mjs_arg(m, 0));
}
static void h_hdel(struct mjs *m) {
  Engine *e = eng_of(m);
  e->maybe_host_gc();
  std::string k = getstr(m, mjs_arg(m, 1));
  bool z = k.find((char) 0) == std::string::npos && k.size() % 2;  // either way of naming a key
  mjs_del(m, mjs_arg(m, 0), z ? k.c_str() : k.data(), z ? ~(size_t) 0 : k.size());
  mjs_return(m, mjs_mk_undefined());
}
// host calls back into the script
static void h_hcall(struct mjs *m) {
  Engine *e = eng_of(m);
  e->maybe_host_gc();
  mjs_val_t r = mjs_mk_undefined();
  mjs_err_t err = mjs_call(m, &r, mjs_arg(m, 0), mjs_arg(m, 1), 2, mjs_arg(m, 2), mjs_arg(m, 3));
  if (err != MJS_OK) { mjs_return(m, mjs_mk_undefined()); return; }  // error stays set
  mjs_own(m, &r);
  e->maybe_host_gc();
  mjs_disown(m, &r);
  mjs_return(m, r);
}
// a point at which the host may fail; the decisions are recorded for the model
static void h_cp(struct mjs *m) {
  Engine *e = eng_of(m);
  e->maybe_host_gc();
  bool f = S.armed && S.decide(F_FAIL_HOST);
  e->cplog.push_back(f);
  int k = mjs_get_int(m, mjs_arg(m, 0));
  S.log("e%d cp %d%s", e->id, k, f ? " fails" : "");
  if (f) {
    tl_fails++;
    static const mjs_err_t C[] = {MJS_INTERNAL_ERROR, MJS_TYPE_ERROR, MJS_REFERENCE_ERROR, MJS_BAD_ARGS_ERROR, MJS_INTERNAL_ERROR, MJS_NOT_IMPLEMENTED_ERROR, MJS_FILE_READ_ERROR, MJS_SYNTAX_ERROR, MJS_OUT_OF_MEMORY};
    mjs_set_errorf(m, C[k % 9], "checkpoint <%d> failed", k);
  }
  mjs_return(m, mjs_mk_number(m, k));
}
// calls a function and swallows its failure, as a host that reports errors itself does
static void h_htry(struct mjs *m) {
  Engine *e = eng_of(m);
  e->maybe_host_gc();
  mjs_val_t r = mjs_mk_undefined();
  if (mjs_call(m, &r, mjs_arg(m, 0), mjs_arg(m, 1), 1, mjs_arg(m, 2)) != MJS_OK) {
    if (S.verbose) printf("  htry caught: %s\n", e->errtext().c_str());
    e->swallowed++;
    mjs_set_errorf(m, MJS_OK, NULL);
    mjs_return(m, mkstr(m, "failed"));
    S.probe("failure_swallowed_by_host");
    return;
  }
  mjs_own(m, &r);
  e->maybe_host_gc();
  mjs_disown(m, &r);
  mjs_return(m, r);
}
// calls a function and then returns its own receiver
static void h_hthis(struct mjs *m) {
  Engine *e = eng_of(m);
  e->maybe_host_gc();
  mjs_val_t r = mjs_mk_undefined();
  if (mjs_call(m, &r, mjs_arg(m, 0), mjs_arg(m, 2), 1, mjs_arg(m, 1)) != MJS_OK) { mjs_return(m, mjs_mk_undefined()); return; }
  e->maybe_host_gc();
  mjs_return(m, mjs_get_this(m));
}
// runs a small script of the host's own, which may fail, then returns its own receiver
static const char *HEXEC[] = {
  "{ let hx = {a: 'text of a ' + 'nested script', b: [1, 2, 'three' + 'four']}; hx.b.push(hx); hx = 0; }",
  "{ let hx = {f: function(x) { let y = 'long ' + 'string ' + x; die('nested'); }}; hx.f('of the failing one'); }",
  "{ let hx = function(n) { for (let i = 0; i < 3; i++) { if (n > 0) { hx(n - 1); } else { no_such.thing = 'abc' + 'defgh'; } } }; hx(3); }",
  "let = 5;",
};
static void h_hexec(struct mjs *m) {
  Engine *e = eng_of(m);
  e->maybe_host_gc();
  int k = mjs_get_int(m, mjs_arg(m, 0)) & 3;
  uint64_t f0 = tl_fails;
  mjs_err_t err = mjs_exec(m, HEXEC[k], NULL);
  if (tl_fails != f0) { mjs_return(m, mjs_mk_undefined()); return; }  // an injected failure goes on up
  if ((err != MJS_OK) != (k > 0)) S.fail("wrong-result", "a script run by a host function %s: %s", err ? "failed" : "did not fail", e->errtext().c_str());
  if (err != MJS_OK) mjs_set_errorf(m, MJS_OK, NULL);
  e->maybe_host_gc();
  mjs_return(m, mjs_get_this(m));
}
// C struct to object, with a field built by host code that collects
struct HostStruct { int n; const char *s; double d; bool b; struct HostStruct *next; };
static mjs_val_t custom_field(struct mjs *m, const void *) {
  Engine *e = eng_of(m);
  mjs_val_t o = mjs_mk_object(m);
  mjs_own(m, &o);
  e->maybe_host_gc();
  mjs_set(m, o, "deep", ~0, mkstr(m, "custom field value"));
  mjs_disown(m, &o);
  return o;
}
static struct mjs_c_struct_member hs_def2[] = {
  {"n", offsetof(HostStruct, n), MJS_STRUCT_FIELD_TYPE_INT, NULL},
  {"s", offsetof(HostStruct, s), MJS_STRUCT_FIELD_TYPE_CHAR_PTR, NULL},
  {"cust", offsetof(HostStruct, n), MJS_STRUCT_FIELD_TYPE_CUSTOM, (void *) custom_field},
  {NULL, 0, MJS_STRUCT_FIELD_TYPE_INVALID, NULL}};
static struct mjs_c_struct_member hs_def[] = {
  {"n", offsetof(HostStruct, n), MJS_STRUCT_FIELD_TYPE_INT, NULL},
  {"sub", 0, MJS_STRUCT_FIELD_TYPE_STRUCT, hs_def2},
  {"s", offsetof(HostStruct, s), MJS_STRUCT_FIELD_TYPE_CHAR_PTR, NULL},
  {"cust", offsetof(HostStruct, n), MJS_STRUCT_FIELD_TYPE_CUSTOM, (void *) custom_field},
  {"next", offsetof(HostStruct, next), MJS_STRUCT_FIELD_TYPE_STRUCT_PTR, hs_def2},
  {NULL, 0, MJS_STRUCT_FIELD_TYPE_INVALID, NULL}};
static void h_hstruct(struct mjs *m) {
  Engine *e = eng_of(m);
  std::string s = getstr(m, mjs_arg(m, 1));
  HostStruct in = {7, "inner struct text", 1.5, true, nullptr};
  HostStruct hs = {mjs_get_int(m, mjs_arg(m, 0)), s.c_str(), 0.5, false, &in};
  e->maybe_host_gc();
  mjs_return(m, mjs_struct_to_obj(m, &hs, hs_def));
}

// ---------------------------------------------------------------- ffi targets
extern "C" {
struct mg_str_ { const char *p; size_t len; };
static int f_add(int a, int b) { return a + b; }
static double f_mul(double a, double b) { return a * b; }
static bool f_not(bool b) { return !b; }
static char *f_cat(const char *a, const char *b) {
  static char buf[4][9000];
  static int k;
  char *p = buf[k++ % 4];
  snprintf(p, 9000, "%s+%s", a, b);
  return p;
}
static int f_len(struct mg_str_ *s) { unsigned h = 0; for (size_t i = 0; i < s->len; i++) h = (h * 31 + (unsigned char) s->p[i]) % 1000; return (int) (h + s->len % 7); }
// runs the callback n times; stops early once a callback failed
static int f_each(int n, int (*cb)(int, void *), void *ud) {
  int sum = 0;
  for (int i = 0; i < n; i++) {
    sum += cb(i, ud);
    if (strcmp(mjs_strerror(tl_engine, MJS_OK), "NO_ERROR")) break;
    sum %= 1000;
  }
  return sum;
}
static char *f_same(char *s) { return s; }
}
void *host_dlsym(void *, const char *n) {
  std::string s = n;
  if (s == "f_add") return (void *) f_add;
  if (s == "f_mul") return (void *) f_mul;
  if (s == "f_not") return (void *) f_not;
  if (s == "f_cat") return (void *) f_cat;
  if (s == "f_len") return (void *) f_len;
  if (s == "f_each") return (void *) f_each;
  if (s == "f_same") return (void *) f_same;
  return nullptr;
}
struct HF { const char *name; void (*f)(struct mjs *); };
static const HF HFS[] = {{"emit", h_emit}, {"id", h_id}, {"mkobj", h_mkobj}, {"keep", h_keep}, {"kept", h_kept}, {"hset", h_hset},
  {"hdel", h_hdel}, {"hcall", h_hcall}, {"cp", h_cp}, {"htry", h_htry}, {"hstruct", h_hstruct}, {"hthis", h_hthis}, {"hexec", h_hexec}};
static const char *BUILTINS[] = {"global", "load", "print", "ffi", "ffi_cb_free", "mkstr", "getMJS", "die", "gc", "chr", "s2o", "JSON", "Object", "NaN", "isNaN", "die"};

void Engine::own_slots() { for (auto &s : slot) { s = mjs_mk_undefined(); mjs_own(m, &s); } }
void Engine::create(bool own) {
  m = mjs_create();
  engines[m] = this;
  mjs_set_ffi_resolver(m, host_dlsym);
  mjs_val_t g = mjs_get_global(m);
  for (auto &h : HFS) { mjs_set(m, g, h.name, ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) h.f)); skip.insert(h.name); }
  for (auto *b : BUILTINS) skip.insert(b);
  if (own) own_slots();
}
void Engine::destroy() {
  for (auto &s : slot) if (!mjs_disown(m, &s)) S.fail("own", "a host-owned slot was no longer registered at destruction");
  engines.erase(m);
  mjs_destroy(m);
  m = nullptr;
}

// ---------------------------------------------------------------- the model's versions
void host_bind_cp(Model &m, Engine *e) {
  m.host["cp"] = [e](Model &, const MVal &, std::vector<MVal> &a) {
    if (e->cppos >= e->cplog.size()) throw MDiverged{};
    if (e->cplog[e->cppos++]) throw MErr{"checkpoint"};
    return a[0];
  };
}
void host_bind_model(Model &m, const std::set<std::string> *) {
  MVal slots = m.new_arr();
  int sref = slots.ref;
  m.slots_ref = sref;
  m.heap[sref].el.resize(NSLOT);
  for (auto &h : HFS) m.setraw(MVal{M_OBJ, 0, "", 0, nullptr}, h.name, MVal::host(h.name));
  auto G = MVal{M_OBJ, 0, "", 0, nullptr};
  m.setraw(G, "gc", MVal::host("gc"));
  m.setraw(G, "chr", MVal::host("chr"));
  m.setraw(G, "ffi", MVal::host("ffi"));
  m.setraw(G, "die", MVal::host("die"));
  m.setraw(G, "isNaN", MVal::host("isNaN"));
  MVal J = m.new_obj();
  m.setraw(J, "stringify", MVal::host("JSON.stringify"));
  m.setraw(J, "parse", MVal::host("JSON.parse"));
  m.setraw(G, "JSON", J);
  MVal Ob = m.new_obj();
  m.setraw(Ob, "create", MVal::host("Object.create"));
  m.setraw(G, "Object", Ob);
  using V = std::vector<MVal>;
  m.host["emit"] = [](Model &m, const MVal &, V &a) { m.emit(m.dump(a.empty() ? MVal() : a[0], 60)); return MVal(); };
  m.host["id"] = [](Model &, const MVal &, V &a) { return a.empty() ? MVal() : a[0]; };
  m.host["mkobj"] = [](Model &m, const MVal &, V &a) {
    MVal o = m.new_obj(), ar = m.new_arr();
    m.setraw(o, "n", a[0]);
    MVal s = MVal::str(a[1].s + "-host");
    m.setraw(o, "s", s);
    m.heap[ar.ref].el = {s, a[1]};
    m.setraw(o, "a", ar);
    m.setraw(o, "o", MVal::null());
    MVal *meth = m.global("meth0");
    m.setraw(o, "m", meth ? *meth : MVal());
    return o;
  };
  m.host["keep"] = [sref](Model &m, const MVal &, V &a) { m.effect(); m.heap[sref].el[(int) a[0].n % NSLOT] = a.size() > 1 ? a[1] : MVal(); return MVal(); };
  m.host["kept"] = [sref](Model &m, const MVal &, V &a) { return m.heap[sref].el[(int) a[0].n % NSLOT]; };
  m.host["hset"] = [](Model &m, const MVal &, V &a) { m.set(a[0], a[1].s, a[2]); return a[0]; };
  m.host["hdel"] = [](Model &m, const MVal &, V &a) {
    m.effect();
    m.del(a[0], a[1].s);
    return MVal();
  };
  m.host["hcall"] = [](Model &m, const MVal &, V &a) { a.resize(4); return m.call(a[0], a[1], {a[2], a[3]}); };
  m.host["htry"] = [](Model &m, const MVal &, V &a) {
    a.resize(3);
    size_t k = m.scopes.size();
    MVal th = m.cur_this;
    int d = m.depth;
    try { return m.call(a[0], a[1], {a[2]}); }
    catch (MErr &) { m.scopes.resize(k); m.scope_obj.resize(k); m.cur_this = th; m.depth = d; return MVal::str("failed"); }
  };
  m.host["hthis"] = [](Model &m, const MVal &self, V &a) { a.resize(3); m.call(a[0], a[2], {a[1]}); return self; };
  m.host["hexec"] = [](Model &, const MVal &self, V &) { return self; };
  m.host["hstruct"] = [](Model &m, const MVal &, V &a) {
    auto cust = [&] { MVal c = m.new_obj(); m.setraw(c, "deep", MVal::str("custom field value")); return c; };
    auto sub = [&](double n, const std::string &s) { MVal o = m.new_obj(); m.setraw(o, "cust", cust()); m.setraw(o, "s", MVal::str(s)); m.setraw(o, "n", MVal::num(n)); return o; };
    MVal o = m.new_obj();
    m.setraw(o, "next", sub(7, "inner struct text"));
    m.setraw(o, "cust", cust());
    m.setraw(o, "s", a[1]);
    m.setraw(o, "sub", sub(a[0].n, a[1].s));
    m.setraw(o, "n", a[0]);
    return o;
  };
  m.host["gc"] = [](Model &, const MVal &, V &a) { return a.empty() ? MVal() : a[0]; };
  m.host["chr"] = [](Model &, const MVal &, V &a) { int n = (int) a[0].n; return n >= 0 && n <= 255 ? MVal::str(std::string(1, (char) n)) : MVal::null(); };
  m.host["isNaN"] = [](Model &, const MVal &, V &a) { return MVal::boolean(a[0].t == M_NUM && std::isnan(a[0].n)); };
  m.host["die"] = [](Model &, const MVal &, V &a) -> MVal { throw MErr{a[0].s}; };
  m.host["ffi"] = [](Model &, const MVal &, V &a) {
    size_t p = a[0].s.find("f_"), e = a[0].s.find('(', p);
    return MVal::ffi(a[0].s.substr(p, e - p));
  };
  m.host["JSON.stringify"] = [](Model &m, const MVal &, V &a) { std::vector<int> st; bool sk; std::string s = m.json(a[0], st, sk); return sk ? MVal() : MVal::str(s); };
  m.host["JSON.parse"] = [](Model &m, const MVal &, V &a) { return m.parse_json(a[0].s); };
  m.host["Object.create"] = [](Model &m, const MVal &, V &a) { if (a[0].t != M_OBJ) throw MErr{"proto"}; MVal o = m.new_obj(); m.setraw(o, "__p", a[0]); return o; };
  m.host["f_add"] = [](Model &, const MVal &, V &a) { return MVal::num(a[0].n + a[1].n); };
  m.host["f_mul"] = [](Model &, const MVal &, V &a) { return MVal::num(a[0].n * a[1].n); };
  m.host["f_not"] = [](Model &, const MVal &, V &a) { return MVal::boolean(!truthy(a[0])); };
  m.host["f_cat"] = [](Model &, const MVal &, V &a) { return MVal::str((a[0].s + "+" + a[1].s).substr(0, 8999)); };
  m.host["f_same"] = [](Model &, const MVal &, V &a) { return a[0]; };
  m.host["f_len"] = [](Model &, const MVal &, V &a) { unsigned h = 0; for (unsigned char c : a[0].s) h = (h * 31 + c) % 1000; return MVal::num((double) (h + a[0].s.size() % 7)); };
  m.host["f_each"] = [](Model &m, const MVal &, V &a) {
    int n = (int) a[0].n, sum = 0;
    for (int i = 0; i < n; i++) { MVal r = m.call(a[1], MVal(), {MVal::num(i), a[2]}); sum += (int) r.n; sum %= 1000; }
    return MVal::num(sum);
  };
}
