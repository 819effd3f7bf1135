// P14: what a program computes does not depend on the allocator.
// Two engines run the same operations with different allocator behaviour; both
// are compared with each other, and with the model where it knows the operation.
#include "common.h"
#include <algorithm>
using namespace nb;

static const int LEN[] = {0, 1, 3, 4, 5, 6, 7, 8, 15, 16, 20, 31, 32, 50, 99, 100, 101, 125, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 500, 1000, 2047, 2048, 4096, 8191, 16382, 16383, 16384, 16385};
static int pick_len(Rng &r, int max) {
  for (;;) {
    int n = r.chance(0.7) ? LEN[r.below(sizeof(LEN) / sizeof(*LEN))] : (int) r.below(400);
    if (n > 600 && !r.chance(0.15)) continue;
    if (n <= max) return n;
  }
}
static std::string text(Rng &r, int n) {
  std::string s = strf("<%x", (unsigned) r.below(1 << 20));
  static const char *W[] = {"alpha", "beta ", "\n", "x", "lorem ipsum dolor ", "0123456789", "zz", "Q", "\t", "quote\"", "back\\slash ", "it's "};
  while ((int) s.size() < n) s += W[r.below(12)];
  s.resize((size_t) n);
  return s;
}
static const char *OPS[] = {"lit", "cat", "slice", "search", "grow", "native", "push", "splice", "elem", "key", "chain", "recurse", "apply", "nest", "longcode",
                            "json", "callback", "hstr", "hkey", "harr", "misuse", "gc", "struct", "temps", "keep", "locals", "walk", "pipeline"};
enum { NOPS = sizeof(OPS) / sizeof(*OPS) };
static void plan14(Rng &r, Plan &p) {
  for (const char *k : {"1", "2"}) {
    p.cfg[std::string("fill") + k] = (int64_t) r.below(5);
    p.cfg[std::string("move") + k] = (int64_t) r.below(4);
    p.cfg[std::string("slack") + k] = (int64_t) r.below(4);
    p.cfg[std::string("reuse") + k] = (int64_t) r.below(2);
  }
  p.cfg["gc"] = (int64_t) r.below(4);
  p.cfg["mix"] = (int64_t) r.below(6);
  int n = (int) r.range(4, 30);
  std::vector<int> pool;
  // a run works with a few kinds of operations, so that they meet each other often
  if (p.cfg["mix"]) for (int i = 0; i < 6; i++) pool.push_back((int) r.below(NOPS));
  else for (int i = 0; i < NOPS; i++) pool.push_back(i);
  for (int i = 0; i < n; i++) p.add(OPS[r.chance(0.2) ? (int) r.below(NOPS) : pool[r.below(pool.size())]], {(int64_t) r.below(1u << 30)});
}

namespace {
struct Two {
  Engine e[2];
  AllocCfg cfg[2];
  Model m;
  Rng r{1};
  void use(int k) { A = cfg[k]; }
  std::string sv() { return strf("s%d", (int) r.below(6)); }
  std::string av() { return strf("a%d", (int) r.below(3)); }
  std::string ov() { return strf("o%d", (int) r.below(3)); }
  size_t slen(const std::string &n) { return m.global(n)->s.size(); }
  Node *sl(Node *s, double a, double b) { return call(dot(s, "slice"), {N(a), N(b)}); }
  Node *cap(Node *s, int n = 5000) { return sl(s, 0, n); }
  double idx(size_t n) {  // somewhere in, or just beside, a thing of that length
    switch (r.below(6)) {
      case 0: return 0;
      case 1: return (double) n;
      case 2: return (double) n - 1 < 0 ? 0 : (double) n - 1;
      case 3: return -(double) r.below(n + 2);
      case 4: return (double) n + (double) r.below(3);
      default: return (double) r.below(n + 1);
    }
  }
  Node *sexpr() {
    std::string v = sv();
    switch (r.below(5)) {
      case 0: return T(text(r, pick_len(r, 300)));
      case 1: return call(dot(V(v), "slice"), {N(idx(slen(v))), N(idx(slen(v)))});
      case 2: return cap(bin("+", V(v), V(sv())), pick_len(r, 600));
      default: return V(v);
    }
  }
  void check(const std::string &src, mjs_err_t e0, mjs_err_t e1) {
    std::string x0 = err_report(e[0], e0), x1 = err_report(e[1], e1);
    if (x0 != x1) S.fail("allocator-visible", "one engine reports `%s`, the other `%s` | %s", esc(x0).c_str(), esc(x1).c_str(), esc(src, 2500).c_str());
    if (e[0].trace != e[1].trace) {
      size_t i = 0;
      while (i < e[0].trace.size() && i < e[1].trace.size() && e[0].trace[i] == e[1].trace[i]) i++;
      S.fail("allocator-visible", "event %zu differs between the engines: %s | %s", i,
             first_diff(i < e[0].trace.size() ? e[0].trace[i] : "(none)", i < e[1].trace.size() ? e[1].trace[i] : "(none)").c_str(), esc(src, 2500).c_str());
    }
  }
  // runs a program the model knows
  void run(std::vector<Node *> prog) {
    std::string src = print_program(prog);
    if (S.verbose) printf("%s\n", esc(src, 4000).c_str());
    m.fuel = 1u << 30;
    m.run(prog);
    mjs_err_t err[2];
    for (int k = 0; k < 2; k++) {
      use(k);
      S.steps_op = 0;
      err[k] = e[k].exec(src);
      if (err[k] != MJS_OK) S.fail("spurious-error", "engine %d: script failed: %s | %s", k, e[k].errtext().c_str(), esc(src, 3000).c_str());
    }
    check(src, err[0], err[1]);
    state(src);
  }
  void state(const std::string &src) {
    std::string b = model_state(e[0], m);
    for (int k = 0; k < 2; k++) {
      use(k);
      std::string a = engine_state(e[k]);
      if (a != b) S.fail("wrong-state", "engine %d: variables differ from the model: %s | %s", k, first_diff(a, b).c_str(), esc(src, 2500).c_str());
    }
    S.state(fnvs(b));
    std::vector<std::string> t1 = e[1].trace, t0 = e[0].trace;
    check_trace(e[0], m, src);   // clears the model's events too
    (void) t0;
    e[1].trace.clear();
  }
  // runs a text the model does not know: the engines must agree
  void differ(const std::string &src) {
    if (S.verbose) printf("%s\n", esc(src, 4000).c_str());
    mjs_err_t err[2];
    for (int k = 0; k < 2; k++) {
      use(k);
      S.steps_op = 0;
      err[k] = e[k].exec(src);
    }
    check(src, err[0], err[1]);
    for (int k = 0; k < 2; k++) e[k].trace.clear();
    state(src);
    if (err[0] != MJS_OK) S.probe("operation_reports_an_error");
  }
};
}  // namespace
static std::string odd_value(Rng &r) {
  static const char *P[] = {"0", "1", "2", "3", "-1", "-2", "5", "6", "127", "128", "255", "256", "-129", "65536", "2147483647", "-2147483648", "4294967295", "10000000000", "-10000000000", "1e300", "0.5", "-0.5", "NaN",
    "''", "'a'", "'abcd'", "'abcde'", "'abcdef'", "'0'", "'12'", "'length'", "null", "undefined", "true", "false", "{}", "{a: 1, b: 'two'}", "[]", "[1]", "[1, 'two', [3]]", "function(lx) { return lx; }", "id", "f_add_", "JSON", "chr(65)", "'x' + chr(255)"};
  if (r.chance(0.1)) return "'" + std::string((size_t) pick_len(r, 300), 'y') + "'";
  return P[r.below(sizeof(P) / sizeof(*P))];
}
static std::string odd_key(Rng &r) {
  for (;;) {
    std::string k = odd_value(r);
    double d = atof(k.c_str());
    if (!(d > 300 && d < 5e9)) return k;   // arrays of that many elements only take time
  }
}
static std::string odd_args(Rng &r, int max) {
  int n = (int) r.below((uint64_t) max + 1);
  std::string a;
  for (int i = 0; i < n; i++) a += (i ? ", " : "") + odd_value(r);
  return a;
}
static std::string misuse(Rng &r) {
  static const char *RECV[] = {"'hello world'", "'abcde'", "'abcd'", "''", "[1, 2, 3, 4]", "[]", "['one', 'two', {x: 3}]", "{a: 1, longer_name: 2}", "5", "null", "undefined", "true", "f_add_", "function(la, lb) { return [la, lb, this]; }"};
  static const char *METH[] = {"slice", "at", "charCodeAt", "indexOf", "push", "splice", "apply", "length", "a", "0", "7", "nosuch"};
  static const char *FNS[] = {"chr", "mkstr", "s2o", "ffi_cb_free", "JSON.parse", "JSON.stringify", "isNaN", "die", "gc", "Object.create", "f_add_", "f_mul_", "f_cat_", "f_len_", "f_not_", "f_same_", "emit", "load"};
  static const char *SIG[] = {"int f_add(int, int)", "double f_mul(double, double)", "bool f_not(bool)", "char *f_cat(char *, char *)", "int f_len(struct mg_str *)", "int f_each(int, int (*)(int, userdata), userdata)", "void f_nothing()", "void *f_add(void *, void *)",
    "int f_each(int, void (*)(char *, int, double, userdata), userdata)"};
  std::string recv = RECV[r.below(14)];   // no pointer: the engine reads and writes through those
  switch (r.below(9)) {
    case 0: case 1: case 2: return "{ let lq = " + recv + "; emit(lq." + (METH[r.below(7)] + ("(" + odd_args(r, 4))) + ")); emit(lq); }";
    case 3: return "{ let lq = " + recv + "; emit(lq[" + odd_key(r) + "]); emit(lq." + (r.chance(0.5) ? "length" : "a") + "); }";
    case 4: return "{ let lq = " + recv + "; lq[" + odd_key(r) + "] = " + odd_value(r) + "; emit(lq); " + (r.chance(0.5) ? "for (let lk in lq) { emit(lk); }" : "lq.splice(" + odd_args(r, 4) + "); emit(lq);") + " }";
    case 5: { std::string f = FNS[r.below(18)], a = odd_args(r, 4);
      if (f == "s2o" || f == "mkstr") while (a.find("id") != std::string::npos) a = odd_args(r, 4);   // ... nor structures at arbitrary addresses
      if (f == "load" && a.find("''") != std::string::npos) a = "'nofile'";
      return "emit(" + f + "(" + a + "));"; }
    case 6: {
      std::string s = SIG[r.below(9)];
      switch (r.below(5)) {
        case 0: s.resize(r.below(s.size() + 1)); break;
        case 1: s.insert(r.below(s.size() + 1), 1, "(),* x\n"[r.below(7)]); break;
        case 2: s.insert(s.find('f'), std::string((size_t) pick_len(r, 300), 'n')); break;
        case 3: if (s.size() > 2) s.erase(r.below(s.size() - 1), 1 + r.below(3)); break;
        case 4: s.insert(s.find('(') + 1, [&] { std::string x; for (uint64_t i = r.below(14); i; i--) x += "int, "; return x; }()); break;
      }
      std::string e;
      for (char c : s) e += c == '\n' ? std::string("\\n") : std::string(1, c);
      return "emit(isNaN(ffi('" + e + "')));";
    }
    case 7: {
      static const char *B[] = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "===", "!==", "&", "|", "^", "<<", ">>", ">>>", "&&", "||"};
      return "emit(" + odd_value(r) + " " + B[r.below(19)] + " " + odd_value(r) + ");";
    }
    default: {
      static const char *B[] = {"+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^="};
      return "{ let lq = " + odd_value(r) + "; lq " + B[r.below(11)] + " " + odd_value(r) + "; emit(lq); }";
    }
  }
}
static char foreign_text[4][700];

static void run14(const Plan &p) {
  static const int FILL[] = {0xA5, 0, 0xff, 0x31, -1};
  static const double MOVE[] = {1.0, 0.5, 0.0, 0.15};
  static const size_t SLACK[] = {0, 8, 130, 5000};
  static const double GC[] = {0, 0.005, 0.05, 0.3};
  Two t;
  Model &m = t.m;
  for (int k = 0; k < 2; k++) {
    std::string n = k ? "2" : "1";
    t.cfg[k].fill = FILL[p.get(("fill" + n).c_str())];
    t.cfg[k].move = MOVE[p.get(("move" + n).c_str())];
    t.cfg[k].slack = t.cfg[k].move < 1 ? SLACK[p.get(("slack" + n).c_str())] : 0;
    t.cfg[k].reuse = p.get(("reuse" + n).c_str()) != 0;
  }
  for (int i = 0; i < 4; i++) { for (int j = 0; j < 699; j++) foreign_text[i][j] = (char) ('a' + (i * 7 + j * 3) % 26); foreign_text[i][699] = 0; }
  S.armed = false;
  host_bind_model(m);
  for (int k = 0; k < 2; k++) {
    t.use(k);
    t.e[k].id = k;
    t.e[k].create();
  }
  Rng gr(7);
  Gen g(gr, m, GenCfg(), "g");
  auto pre = g.prelude();
  std::vector<Node *> extra = {let("f_same_", call(V("ffi"), {T("char *f_same(char *)")})), let("f_mul_", call(V("ffi"), {T("double f_mul(double, double)")}))};
  for (int i = 0; i < 6; i++) extra.push_back(let(strf("s%d", i), T(strf("initial string %d", i))));
  for (int i = 0; i < 3; i++) extra.push_back(let(strf("a%d", i), mk(E_ARRAY, "", {T("one"), T("element two")})));
  for (int i = 0; i < 3; i++) extra.push_back(let(strf("o%d", i), obj({"k", "longer_key"}, {T("v"), T("longer value")})));
  // builds a string while recursing
  extra.push_back(let("rec", fn({"ln", "ls"}, {iff(bin("<", V("ln"), N(1)), {ret(V("ls"))}), let("lt", bin("+", V("ls"), T("r"))),
                                               ret(t.cap(bin("+", call(V("rec"), {bin("-", V("ln"), N(1)), V("lt")}), V("lt")), 400))})));
  pre.insert(pre.end(), extra.begin(), extra.end());
  t.run(pre);
  S.armed = true;
  S.rate[F_GC] = GC[p.get("gc")];
  S.rate[F_GC_HOST] = p.get("gc") ? 0.1 : 0;
  // calls of the host program: the engine does one after the other
  auto host = [&](const char *what, const std::function<void(Engine &, int)> &f, const std::function<void()> &model) {
    for (int k = 0; k < 2; k++) { t.use(k); f(t.e[k], k); }
    model();
    t.state(what);
  };
  const MVal G{M_OBJ, 0, "", 0, nullptr};
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    t.r = Rng((uint64_t) op.a[0]);
    Rng &r = t.r;
    const std::string &o = op.name;
    S.log("%s", o.c_str());
    if (S.verbose) printf("  [%d %s]\n", op.id, o.c_str());
    if (o == "lit") t.run({set(V(t.sv()), T(text(r, pick_len(r, 20000))))});
    else if (o == "cat") {
      std::string a = t.sv(), b = t.sv(), c = t.sv();
      int mx = r.chance(0.1) ? 20000 : 5000;
      if (r.chance(0.3)) t.run({mk(S_OPASSIGN, "+", {V(a), V(b)}), set(V(a), t.cap(V(a), mx))});
      else t.run({set(V(a), t.cap(bin("+", V(b), V(c)), mx)), st(call(V("emit"), {bin("===", bin("+", V(b), T("")), V(b))}))});
    } else if (o == "slice") {
      std::string a = t.sv(), b = t.sv();
      size_t n = t.slen(b);
      std::vector<Node *> q;
      int k = (int) r.range(1, 4);
      for (int i = 0; i < k; i++) {
        std::vector<Node *> ar = {N(t.idx(n))};
        if (r.chance(0.7)) ar.push_back(N(t.idx(n)));
        q.push_back(set(V(t.sv()), call(dot(V(b), "slice"), ar)));
        q.push_back(st(call(V("emit"), {bin("===", bin("+", t.sl(V(a), 0, (double) i + 3), call(dot(V(a), "slice"), {N(i + 3)})), V(a))})));
      }
      t.run(q);
    } else if (o == "search") {
      std::string a = t.sv(), b = t.sv();
      size_t n = t.slen(a);
      std::vector<Node *> q;
      Node *needle = r.chance(0.5) ? call(dot(V(b), "slice"), {N(t.idx(n)), N(t.idx(n))}) : T(text(r, (int) r.below(4)));
      q.push_back(st(call(V("emit"), {r.chance(0.5) ? call(dot(V(a), "indexOf"), {needle}) : call(dot(V(a), "indexOf"), {needle, N(t.idx(n))})})));
      for (int i = 0; i < 3; i++) q.push_back(st(call(V("emit"), {call(dot(V(a), r.chance(0.5) ? "at" : "charCodeAt"), {N(t.idx(n))})})));
      q.push_back(st(call(V("emit"), {mk(E_IDX, "", {V(a), N((double) r.below(n + 2))})})));
      t.run(q);
    } else if (o == "grow") {
      std::string a = t.sv();
      double n = (double) r.range(1, 140);
      Node *body = set(V(a), bin("+", V(a), r.chance(0.5) ? call(V("chr"), {bin("+", N(65), bin("%", V("li"), N(26)))}) : T(text(r, (int) r.range(1, 9)))));
      t.run({set(V(a), t.cap(V(a), 3000)), mk(S_FOR, "", {let("li", N(0)), bin("<", V("li"), N(n)), mk(S_INCR, "++", {V("li")}), body})});
    } else if (o == "native") {
      std::string a = t.sv(), b = t.sv(), c = t.sv();
      switch (r.below(4)) {
        case 0: t.run({set(V(a), call(V("f_same_"), {t.sexpr()})), st(call(V("emit"), {call(V("f_len_"), {V(a)})}))}); break;
        case 1: t.run({set(V(a), call(V("f_cat_"), {t.cap(V(b), 3000), t.cap(V(c), 3000)}))}); break;
        case 2: t.run({set(V(a), call(V("f_same_"), {call(V("f_same_"), {bin("+", t.cap(V(b), 2000), t.cap(V(c), 2000))})}))}); break;
        case 3: t.run({set(V(a), bin("+", call(V("f_same_"), {t.cap(V(b), 2000)}), call(V("f_same_"), {t.cap(V(c), 2000)})))}); break;
      }
    } else if (o == "push") {
      std::string a = t.av();
      std::vector<Node *> q, ar;
      if (m.heap[m.global(a)->ref].el.size() > 60) q.push_back(st(call(dot(V(a), "splice"), {N(0), N(50)})));
      int n = r.chance(0.2) ? (int) r.range(5, 45) : (int) r.below(4);
      for (int i = 0; i < n; i++) ar.push_back(t.sexpr());
      q.push_back(st(call(V("emit"), {call(dot(V(a), "push"), ar)})));
      t.run(q);
    } else if (o == "splice") {
      std::string a = t.av();
      size_t n = m.heap[m.global(a)->ref].el.size();
      std::vector<Node *> ar = {N(t.idx(n))};
      if (r.chance(0.85)) ar.push_back(N((double) r.range(-1, (int64_t) n + 1)));
      if (ar.size() == 2) for (int k = r.chance(0.2) ? (int) r.below(20) : (int) r.below(4); k > 0 && n < 80; k--) ar.push_back(t.sexpr());
      if (r.chance(0.3)) t.run({set(V(t.av()), call(dot(V(a), "splice"), ar))});
      else t.run({st(call(V("emit"), {call(dot(V(a), "splice"), ar)}))});
    } else if (o == "elem") {
      std::string a = t.av();
      size_t n = m.heap[m.global(a)->ref].el.size();
      std::vector<Node *> q;
      for (int i = 0; i < 3; i++) {
        if (n < 80 && r.chance(0.5)) q.push_back(set(mk(E_IDX, "", {V(a), r.chance(0.5) ? N((double) r.below(n + 1)) : dot(V(a), "length")}), t.sexpr()));
        q.push_back(st(call(V("emit"), {mk(E_IDX, "", {V(a), N((double) r.below(n + 3))})})));
      }
      t.run(q);
    } else if (o == "key") {
      std::string a = t.ov();
      std::vector<Node *> q;
      auto key = [&]() -> Node * {
        int n = pick_len(r, 260);
        if (!n) n = 1;
        std::string k(1, "klx"[r.below(3)]);
        k += std::string((size_t) n - 1, 'e');
        if (r.chance(0.4)) return bin("+", T(k.substr(0, k.size() / 2)), T(k.substr(k.size() / 2)));
        return T(k);
      };
      int n = (int) r.range(1, 6);
      for (int i = 0; i < n; i++) {
        switch (r.below(4)) {
          case 0: q.push_back(st(call(V("hdel"), {V(a), key()}))); break;
          case 1: q.push_back(st(call(V("emit"), {mk(E_IDX, "", {V(a), key()})}))); break;
          default: q.push_back(set(mk(E_IDX, "", {V(a), key()}), t.sexpr()));
        }
      }
      if (m.heap[m.global(a)->ref].props.size() > 40) q.push_back(set(V(a), obj({"k"}, {t.sexpr()})));
      t.run(q);
    } else if (o == "chain") {
      std::string a = t.ov();
      int n = (int) r.range(1, 20);
      std::vector<Node *> q = {let("lc", V(a))};
      q.push_back(mk(S_FOR, "", {let("li", N(0)), bin("<", V("li"), N(n)), mk(S_INCR, "++", {V("li")}), set(V("lc"), call(dot(V("Object"), "create"), {V("lc")})),
                                 iff(bin("===", bin("%", V("li"), N(3)), N(0)), {set(dot(V("lc"), "own"), bin("+", T("level "), call(V("chr"), {bin("+", N(65), V("li"))})))})}));
      for (const char *k : {"own", "k", "longer_key", "missing"}) q.push_back(st(call(V("emit"), {dot(V("lc"), k)})));
      t.run({mk(S_BLOCK, "", q)});
    } else if (o == "recurse") {
      double n = (double) (r.chance(0.3) ? r.range(50, 150) : r.range(1, 30));
      t.run({set(V(t.sv()), call(V("rec"), {N(n), t.cap(V(t.sv()), 60)}))});
    } else if (o == "apply") {
      int np = (int) r.below(r.chance(0.2) ? 60 : 6), na = (int) r.below(r.chance(0.2) ? 90 : 8);
      std::vector<std::string> ps;
      std::vector<Node *> ar, items, body;
      for (int i = 0; i < np; i++) ps.push_back(strf("lp%d", i));
      for (int i = 0; i < na; i++) ar.push_back(t.sexpr());
      for (auto &x : ps) items.push_back(V(x));
      if (r.chance(0.5)) body.push_back(let("lz", t.sexpr()));
      body.push_back(ret(mk(E_ARRAY, "", items)));
      Node *f = fn(ps, body);
      if (r.chance(0.5)) t.run({mk(S_BLOCK, "", {let("lf", f), st(call(V("emit"), {call(dot(V("lf"), "apply"), {mk(E_NULL), mk(E_ARRAY, "", ar)})}))})});
      else t.run({mk(S_BLOCK, "", {let("lf", f), st(call(V("emit"), {call(V("lf"), ar)}))})});
    } else if (o == "nest") {
      int n = (int) r.range(2, 22);
      std::string a = t.sv();
      std::vector<Node *> in = {set(V(a), t.cap(bin("+", V(a), T("deep")), 900))};
      bool lab = r.chance(0.5);
      for (int i = n; i > 0; i--) {
        std::string v = strf("ln%d", i);
        std::vector<Node *> b = {let(v, t.sexpr())};
        b.insert(b.end(), in.begin(), in.end());
        switch (r.below(4)) {
          case 0: in = {mk(S_BLOCK, "", b)}; break;
          case 1: { std::string w = strf("lw%d", i); b.push_back(mk(lab ? S_BREAK : S_CONTINUE)); Node *f = mk(S_FOR, "", {let(w, N(0)), bin("<", V(w), N(1)), mk(S_INCR, "++", {V(w)})}); f->c.insert(f->c.end(), b.begin(), b.end()); in = {f}; break; }
          case 2: in = {iff(bin("===", V(a), V(a)), b)}; break;
          case 3: { Node *ob = obj({"x"}, {N(1)}); Node *f = mk(S_FORIN, strf("lk%d", i), {ob}); f->c.insert(f->c.end(), b.begin(), b.end()); in = {f}; break; }
        }
      }
      t.run(in);
    } else if (o == "longcode") {
      std::string a = t.sv();
      auto bulk = [&](std::vector<Node *> &v) { int tot = pick_len(r, 20000); while (tot > 0) { int k = (int) r.range(20, 400); v.push_back(set(V(t.sv()), T(text(r, k)))); tot -= k; } };
      std::vector<Node *> x, y;
      bulk(x);
      bulk(y);
      x.push_back(set(V(a), T("first branch")));
      y.push_back(set(V(a), T("second branch")));
      std::vector<Node *> q;
      if (r.chance(0.5)) q.push_back(mk(S_IF, "", {mk(E_BOOL), mk(S_BLOCK, "", x), mk(S_BLOCK, "", y)}));
      else { Node *w = mk(S_FOR, "", {let("li", N(0)), bin("<", V("li"), N(2)), mk(S_INCR, "++", {V("li")})}); w->c.insert(w->c.end(), x.begin(), x.end()); q.push_back(w); }
      if (q[0]->k == S_IF) q[0]->c[0]->num = (double) r.below(2);
      q.push_back(st(call(V("emit"), {V(a)})));
      t.run(q);
    } else if (o == "json") {
      std::string a = t.sv(), b = t.av();
      if (r.chance(0.5)) t.run({set(V(a), t.cap(call(dot(V("JSON"), "stringify"), {V(b)}), 8000))});
      else t.run({let("lj", obj({"list", "text", "num"}, {V(b), V(t.sv()), N((double) r.below(100000))})),
                  let("lt", call(dot(V("JSON"), "stringify"), {V("lj")})), st(call(V("emit"), {dot(call(dot(V("JSON"), "parse"), {V("lt")}), "text")})),
                  set(V(t.ov()), call(dot(V("JSON"), "parse"), {V("lt")})), set(V("lt"), N(0)), set(V("lj"), N(0))});
    } else if (o == "callback") {
      std::string a = t.sv();
      Node *f = fn({"li", "lu"}, {set(V(a), t.cap(bin("+", V(a), bin("+", V("lu"), T("."))), 3000)), ret(dot(V(a), "length"))});
      t.run({mk(S_BLOCK, "", {let("lf", f), st(call(V("emit"), {call(V("f_each_"), {N((double) r.range(1, 12)), V("lf"), t.sexpr()})}))})});
    } else if (o == "hstr") {  // the host makes strings out of pieces of strings of the script, and out of its own memory
      std::string a = t.sv(), b = t.sv();
      size_t n = t.slen(b), from = r.below(n + 1), len = r.below(n - from + 1);
      if (r.chance(0.6)) {
        host("string made of a piece of another", [&](Engine &e, int) {
          mjs_val_t v = e.global(b.c_str());
          size_t l;
          const char *s = mjs_get_string(e.m, &v, &l);
          mjs_val_t nv = mjs_mk_string(e.m, s + from, len, 1);
          mjs_set(e.m, mjs_get_global(e.m), a.c_str(), ~0, nv);
        }, [&] { std::string s = m.global(b)->s.substr(from, len); m.setraw(G, a, MVal::str(s)); });
      } else {
        int w = (int) r.below(4), k = pick_len(r, 690), at = 699 - k;   // ends in a NUL byte, as C functions expect
        host("string in the host's memory", [&](Engine &e, int) { mjs_set(e.m, mjs_get_global(e.m), a.c_str(), ~0, mjs_mk_string(e.m, foreign_text[w] + at, (size_t) k, 0)); },
             [&] { m.setraw(G, a, MVal::str(std::string(foreign_text[w] + at, (size_t) k))); });
        S.probe("string_in_host_memory");
      }
      t.run({set(V(t.sv()), t.cap(bin("+", V(a), V(t.sv())))), st(call(V("emit"), {bin("===", V(a), V(t.sv()))})), st(call(V("emit"), {dot(V(a), "length")}))});
    } else if (o == "hkey") {
      std::string a = t.ov(), b = t.sv();
      size_t n = t.slen(b), len = std::min<size_t>(n, (size_t) pick_len(r, 200)), from = r.below(n - len + 1);
      int how = (int) r.below(3), w = (int) r.below(4);
      if (how == 2) { len = (size_t) pick_len(r, 200); from = r.below(400); }
      std::string key = how == 2 ? std::string(foreign_text[w] + from, len) : m.global(b)->s.substr(from, len);
      std::string val = text(r, pick_len(r, 200));
      host("property set by the host", [&](Engine &e, int) {
        mjs_val_t ob = e.global(a.c_str()), v = e.global(b.c_str());
        size_t l;
        if (how == 0) mjs_set(e.m, ob, key.data(), key.size(), mkstr(e.m, val));
        else if (how == 1) {  // the name given as a pointer into the engine's own string
          mjs_val_t nv = mkstr(e.m, val);
          const char *s = mjs_get_string(e.m, &v, &l);
          mjs_set(e.m, ob, s + from, len, nv);
        } else mjs_set_v(e.m, ob, mjs_mk_string(e.m, foreign_text[w] + from, len, 0), mkstr(e.m, val));
        mjs_val_t got = mjs_get(e.m, ob, key.data(), key.size());
        if (getstr(e.m, got) != val) S.fail("wrong-value", "a property the host set under a name of %zu bytes (%s) reads back as %s", key.size(), how == 2 ? "in host memory" : "copied", esc(e.dump(got)).c_str());
        if (how == 2) {
          mjs_val_t fk = mjs_mk_string(e.m, foreign_text[w] + from, len, 0);
          got = mjs_get_v(e.m, ob, fk);
          if (getstr(e.m, got) != val) S.fail("wrong-value", "a property read by a name in host memory is %s", esc(e.dump(got)).c_str());
        }
      }, [&] { m.setraw(*m.global(a), key, MVal::str(val)); });
      t.run({set(mk(E_IDX, "", {V(a), T(key)}), V(t.sv())), st(call(V("emit"), {mk(E_IDX, "", {V(a), T(key)})}))});
      if (r.chance(0.4))
        host("property deleted by the host", [&](Engine &e, int) { if (mjs_del(e.m, e.global(a.c_str()), key.data(), key.size()) != 0) S.fail("wrong-value", "mjs_del found no property %s", esc(key).c_str()); },
             [&] { m.del(*m.global(a), key); });
    } else if (o == "harr") {
      std::string a = t.av(), b = t.sv();
      int ref = m.global(a)->ref;
      size_t n = m.heap[ref].el.size(), at = r.below(n + 1);
      bool push = r.chance(0.4) || n > 80;
      std::string val = text(r, pick_len(r, 300));
      if (n > 80) t.run({st(call(dot(V(a), "splice"), {N(0), N(60)}))});
      else host("element set by the host", [&](Engine &e, int) {
        mjs_val_t ar = e.global(a.c_str()), v = mkstr(e.m, val);
        if ((push ? mjs_array_push(e.m, ar, v) : mjs_array_set(e.m, ar, at, v)) != MJS_OK) S.fail("wrong-value", "setting an array element failed");
        size_t want = push ? n + 1 : std::max(n, at + 1);
        if (mjs_array_length(e.m, ar) != want) S.fail("wrong-value", "array length is %lu, expected %zu", mjs_array_length(e.m, ar), want);
        if (getstr(e.m, mjs_array_get(e.m, ar, push ? n : at)) != val) S.fail("wrong-value", "array element reads back wrong");
        if (!mjs_is_undefined(mjs_array_get(e.m, ar, want)) || !mjs_is_undefined(mjs_array_get(e.m, ar, ~0ul))) S.fail("wrong-value", "an element behind the end of the array is not undefined");
      }, [&] { m.setraw(*m.global(a), std::to_string(push ? n : at), MVal::str(val)); });
    } else if (o == "misuse") t.differ(misuse(r));
    else if (o == "gc") {
      bool full = r.chance(0.6);
      host("collection", [&](Engine &e, int) { mjs_gc(e.m, full); }, [] {});
    } else if (o == "struct") {
      t.run({set(V(t.ov()), call(V("hstruct"), {N((double) r.below(1000)), t.cap(V(t.sv()), pick_len(r, 300))}))});
    } else if (o == "temps") {
      int n = r.chance(0.3) ? (int) r.range(30, 200) : (int) r.range(2, 20);
      std::vector<Node *> it;
      for (int i = 0; i < n; i++) it.push_back(r.chance(0.5) ? bin("+", T(text(r, (int) r.below(12))), t.cap(V(t.sv()), 30)) : t.sl(V(t.sv()), (double) r.below(5), (double) r.below(40)));
      t.run({st(call(V("emit"), {mk(E_IDX, "", {mk(E_ARRAY, "", it), N((double) r.below((uint64_t) n))})}))});
    } else if (o == "keep") {
      t.run({st(call(V("keep"), {N((double) r.below(NSLOT)), r.chance(0.5) ? t.sexpr() : V(t.ov())})), st(call(V("emit"), {call(V("kept"), {N((double) r.below(NSLOT))})})),
             st(call(V("emit"), {call(V("mkobj"), {N(1), t.cap(t.sexpr(), 300)})}))});
    } else if (o == "locals") {
      int n = (int) r.range(1, 70);
      std::vector<Node *> b;
      for (int i = 0; i < n; i++) b.push_back(let(strf("lv%d", i), i && r.chance(0.4) ? t.cap(bin("+", V(strf("lv%d", (int) r.below((uint64_t) i))), T("+")), 100) : t.sexpr()));
      b.push_back(ret(V(strf("lv%d", (int) r.below((uint64_t) n)))));
      t.run({mk(S_BLOCK, "", {let("lf", fn({}, b)), set(V(t.sv()), call(V("lf")))})});
    } else if (o == "walk") {
      std::string a = t.ov();
      std::vector<Node *> b = {st(call(V("emit"), {V("lk")}))};
      if (r.chance(0.5)) b.push_back(set(V(t.sv()), t.cap(bin("+", V("lk"), V(t.sv())), 900)));
      if (r.chance(0.3)) b.push_back(set(mk(E_IDX, "", {V(a), V("lk")}), t.sexpr()));
      Node *f = mk(S_FORIN, "lk", {V(a)});
      f->c.insert(f->c.end(), b.begin(), b.end());
      t.run({f});
    } else if (o == "pipeline") {  // a generated program over everything
      GenCfg c;
      c.stmts = (int) r.range(3, 10);
      c.depth = (int) r.range(2, 3);
      auto prog = gen_program(r.next(), m, c, strf("g%d", op.id));
      t.run(prog);
    }
    S.sh->ops_done++;
  }
  S.armed = false;
  for (int k = 0; k < 2; k++) { t.use(k); mjs_gc(t.e[k].m, 1); }
  t.state("(final collection)");
  for (int k = 0; k < 2; k++) { t.use(k); t.e[k].destroy(); }
}
static Reg reg14("P14", plan14, run14);
