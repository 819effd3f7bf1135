#include "gen.h"

static Node *V(const std::string &n) { return mk(E_VAR, n); }
static Node *dot(Node *o, const char *k) { return mk(E_DOT, k, {o}); }
static Node *bin(const char *op, Node *a, Node *b) { return mk(E_BIN, op, {a, b}); }
static Node *call(Node *f, std::vector<Node *> a) { a.insert(a.begin(), f); return mk(E_CALL, "", a); }
static Node *cap(Node *s, int n) { return call(dot(s, "slice"), {mknum(0), mknum(n)}); }
static Node *estmt(Node *e) { return mk(S_EXPR, "", {e}); }
static Node *modk(Node *n) { return bin("%", n, mknum(1000)); }
static Node *S_(const std::string &s) { return mk(E_STR, s); }

static Node *fnode(std::vector<std::string> params, std::vector<Node *> body, const char *sig) { Node *f = mk(E_FUNC); f->names = std::move(params); f->c = std::move(body); f->sig = sig; return f; }

Gen::Gen(Rng &r, Model &m, GenCfg c, std::string pre) : r(r), m(m), c(c), pre(std::move(pre)) {
  // what the run so far left behind
  for (auto &p : m.heap[0].props) {
    const std::string &n = p.first;
    MVal &v = p.second;
    if (n.size() < 4 || n[0] != 'g') continue;
    char t = 0;
    size_t u = n.find('_');
    if (u == std::string::npos) continue;
    char k = n[u + 1];
    switch (k) {
      case 'n': if (v.t == M_NUM) t = 'N'; break;
      case 's': if (v.t == M_STR) t = 'S'; break;
      case 'b': if (v.t == M_BOOL) t = 'B'; break;
      case 'o': if (v.t == M_OBJ && m.get(v, "m").t == M_FN && m.get(v, "a").t == M_ARR && m.get(v, "n").t == M_NUM && m.get(v, "s").t == M_STR) t = 'O'; break;
      case 'a': if (v.t == M_ARR) t = 'A'; break;
      case 'r': if (v.t == M_ARR) t = 'R'; break;
      case 'j': if (v.t == M_OBJ) t = 'J'; break;
      case 'x': if (v.t == M_FFI) t = 'F'; break;
      case 'f': if (v.t == M_FN) fns.push_back({n, v.fn->sig}); break;
    }
    if (t) vars.push_back({n, t});
  }
}
Node *Gen::var(char t) {
  std::vector<std::string> c;
  for (auto &v : vars) if (v.t == t) c.push_back(v.name);
  if (c.empty()) return nullptr;
  // prefer recent ones
  return V(r.chance(0.5) ? c.back() : r.pick(c));
}
Node *Gen::lit_str() {
  static const int LEN[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 20, 31, 40, 60};
  int n = LEN[r.below(sizeof(LEN) / sizeof(LEN[0]))];
  if (c.bigstr && r.chance(0.06)) { static const int B[] = {120, 126, 127, 128, 129, 130, 200, 255, 256, 500, 900}; n = B[r.below(11)]; }
  std::string s = pre + std::to_string(uid++) + "_";
  static const char *W[] = {"alpha", "beta", "\n", "x", "lorem ipsum ", "0123456789", "zz", "Q"};
  while ((int) s.size() < n) s += W[r.below(8)];
  s.resize(n);
  return S_(s);
}
Node *Gen::dynkey() {
  // a key only ever built at run time
  return bin("+", S_("key_" + std::to_string(r.below(4)) + "_"), call(V("chr"), {mknum(65 + (int) r.below(4))}));
}
Node *Gen::callfn(char ret, int d) {
  std::vector<Fn> cs;
  for (auto &f : fns) if (f.sig.back() == ret) cs.push_back(f);
  if (cs.empty() || !c.calls) return nullptr;
  Fn f = r.pick(cs);
  std::vector<Node *> a;
  for (size_t i = 0; i + 2 < f.sig.size() + 0 && f.sig[i] != '>'; i++) a.push_back(expr(f.sig[i], d - 1));
  int how = (int) r.below(10);
  if (how < 2) {  // apply
    return call(dot(V(f.name), "apply"), {r.chance(0.5) ? expr('O', d - 1) : mk(E_NULL), mk(E_ARRAY, "", a)});
  }
  if (how < 4 && a.size() == 2) return call(V("hcall"), {V(f.name), expr('O', d - 1), a[0], a[1]});
  return call(V(f.name), a);
}
Node *Gen::func(const std::string &sig, bool cb) {
  Node *f = mk(E_FUNC);
  f->sig = sig;
  std::vector<Var> saved = vars;
  std::vector<Var> globals;
  // only globals and own parameters are visible to the body
  for (auto &v : vars) if (v.name[0] == 'g') globals.push_back(v);
  vars = globals;
  for (size_t i = 0; i < sig.size() && sig[i] != '>'; i++) {
    std::string n = fresh("p");
    n[0] = 'l';
    f->names.push_back(n);
    vars.push_back({n, sig[i]});
  }
  int sl = loop;
  bool scb = in_cb;
  loop = 0;
  infn++;
  if (cb) in_cb = true;
  int ns = (int) r.below(3);
  if (nest < 3) { nest++; for (int i = 0; i < ns; i++) stmt(f->c, 1); nest--; }
  if (r.chance(0.15) && nest < 3) {
    // early return from inside loops
    Node *ret = mk(S_RETURN, "", {expr(sig.back(), 1)});
    int depth = r.chance(0.5) ? 1 : (int) r.range(2, 4);
    for (int q = 0; q < depth; q++) {
      std::string i = fresh("i");
      i[0] = 'l';
      Node *iff = mk(S_IF, "", {bin("===", V(i), mknum((double) r.below(q + 1 < depth ? 3 : 4))), mk(S_BLOCK, "", {ret})});
      int kind = (int) r.below(4);
      if (kind == 0) {
        ret = mk(S_WHILE, "", {bin("<", V(i), mknum(3)), iff, mk(S_INCR, "++", {V(i)})});
        ret = mk(S_BLOCK, "", {mk(S_LET, i, {mknum(0)}), ret});
      } else if (kind == 1) {
        Node *a = mk(E_OBJ);
        a->names = {"p", "q"};
        a->c = {lit_str(), mknum(1)};
        iff->c[0] = bin("===", V(i), S_(r.chance(0.7) ? "q" : "zz"));
        ret = mk(S_FORIN, i, {a, iff});
      } else ret = mk(S_FOR, "", {mk(S_LET, i, {mknum(0)}), bin("<", V(i), mknum(3)), mk(S_INCR, "++", {V(i)}), iff});
    }
    f->c.push_back(ret);
  }
  f->c.push_back(mk(S_RETURN, "", {expr(sig.back(), 2)}));
  infn--;
  loop = sl;
  in_cb = scb;
  vars = saved;
  return f;
}
Node *Gen::expr(char t, int d) {
  switch (t) {
    case 'N': return num(d);
    case 'S': return str(d);
    case 'B': return boolean(d);
    case 'O': return obj(d);
    case 'A': return arr(d);
    case 'R': return objarr(d);
    case 'J': return jobj(d);
  }
  return mk(E_UNDEF);
}
// an expression that fails (or may fail at a checkpoint) while the arguments of calls around it are being evaluated
Node *Gen::failing_arg(Node *bad) {
  int n = 1 + (int) r.below(3);
  for (int i = 0; i < n; i++) switch (r.below(4)) {
    case 0: bad = call(V("id"), {bad}); break;
    case 1: bad = modk(call(V("f_add_"), {num(0), bad})); break;
    case 2: bad = call(dot(obj(0), "m"), {bad}); break;
    default: bad = call(V("hcall"), {V("id"), mk(E_NULL), bad, str(0)}); break;
  }
  return bad;
}
// an object literal with a host method that calls back or runs a script and returns its receiver
Node *Gen::thisof(int d) {
  Node *o = mk(E_OBJ);
  bool ex = r.chance(0.5);
  o->names = {"n", "s", "o", "a", "m", "h"};
  o->c = {num(d - 1), str(d - 1), mk(E_NULL), arr(d - 1), V("meth1"), V(ex ? "hexec" : "hthis")};
  if (ex) return call(dot(o, "h"), {mknum((double) r.below(4))});
  return call(dot(o, "h"), {V("meth3"), num(d - 1), obj(d - 1)});
}
Node *Gen::num(int d) {
  if (d <= 0) {
    if (r.chance(0.6)) if (Node *v = var('N')) return v;
    return mknum((double) r.range(0, 300));
  }
  switch (r.below(24)) {
    case 18: if (c.deep && c.calls && loop == 0 && r.chance(0.15)) {
      int k = (int) r.below(3);
      if (k == 0) return call(V("rec0"), {mknum((double) r.range(2, 24)), cap(str(0), 20)});
      if (k == 1) return call(dot(V("rec1"), "apply"), {call(V("mk0"), {num(0), str(0)}), mk(E_ARRAY, "", {mknum((double) r.range(2, 24))})});
      Node *x = num(0);   // receivers that wait for their arguments, which are such calls themselves
      for (int q = (int) r.range(2, 16); q > 0; q--) x = call(dot(call(V("mk0"), {mknum((double) q), lit_str()}), "m"), {x});
      return x;
    }
    return num(d - 1);
    case 19: {  // a receiver that is a string
      Node *f = V(r.chance(0.5) ? "smeth0" : "smeth1");
      if (!c.calls || !c.applies) return num(d - 1);
      return r.chance(0.5) ? call(dot(f, "apply"), {str(d - 1), mk(E_ARRAY, "", {num(d - 1)})}) : call(V("hcall"), {f, str(d - 1), num(d - 1), mk(E_NULL)});
    }
    case 20: {  // a function that only an expression holds
      if (!c.calls) return num(d - 1);
      if (r.chance(0.5)) return call(mk(E_IDX, "", {mk(E_ARRAY, "", {V("amul0"), V("amul0")}), mknum((double) r.below(2))}), {num(d - 1)});
      return call(call(V("mkf0"), {num(d - 1)}), {num(d - 1)});
    }
    case 21: {  // an import that only an expression or a local holds
      if (!c.ffi) return num(d - 1);
      Node *imp = var('F');
      if (!imp || r.chance(0.5)) imp = call(V("ffi"), {S_("int f_add(int, int)")});
      if (r.chance(0.3)) { Node *o = mk(E_OBJ); o->names = {"q", "imp"}; o->c = {str(d - 1), imp}; imp = dot(o, "imp"); }
      return modk(call(imp, {num(d - 1), num(d - 1)}));
    }
    case 22: {
      if (Node *v = var('N')) if (r.chance(0.5)) { static const char *K[] = {"++x", "x++", "--x", "x--"}; return mk(E_INCR, K[r.below(4)], {v}); }
      return mk(E_ASSIGN, "", {dot(obj(d - 1), "n"), num(d - 1)});
    }
    case 23: if (c.calls && c.applies && r.chance(0.5)) return dot(thisof(d), "n"); return num(d - 1);
    case 0: return mknum((double) r.range(0, 999));
    case 1: case 2: if (Node *v = var('N')) return v; return num(0);
    case 3: return modk(bin("+", num(d - 1), num(d - 1)));
    case 4: return modk(bin("-", num(d - 1), num(d - 1)));
    case 5: return modk(bin("*", num(d - 1), num(d - 1)));
    case 6: return dot(obj(d - 1), "n");
    case 7: return dot(arr(d - 1), "length");
    case 8: return dot(str(d - 1), "length");
    case 9: return call(dot(str(d - 1), "indexOf"), {r.chance(0.5) ? lit_str() : S_("a")});
    case 10: return mk(E_OR, "", {call(dot(str(d - 1), r.chance(0.5) ? "at" : "charCodeAt"), {mknum((double) r.below(12))}), mknum(0)});
    case 11: case 12: if (Node *f = callfn('N', d)) return f; return num(d - 1);
    case 13: case 14: return call(dot(obj(d - 1), "m"), {num(d - 1)});
    case 15:
      if (c.applies && r.chance(0.3)) return call(dot(V("id"), "apply"), {mk(E_NULL), mk(E_ARRAY, "", {num(d - 1)})});
      if (c.ffi && c.applies && r.chance(0.3)) return modk(call(dot(V("f_add_"), "apply"), {mk(E_NULL), mk(E_ARRAY, "", {num(d - 1), num(d - 1)})}));
      if (c.ffi) return modk(call(V("f_add_"), {num(d - 1), num(d - 1)}));
      return num(d - 1);
    case 16:
      if (c.calls && nest < 2 && r.chance(0.6)) { nest++; Node *f = func("NS>N"); nest--; return call(V("hcall"), {f, obj(d - 1), num(d - 1), str(d - 1)}); }
      return num(d - 1);
    case 17: if (c.ffi && r.chance(0.5)) return call(V("f_len_"), {str(d - 1)}); if (c.json) return dot(call(dot(V("JSON"), "parse"), {call(dot(V("JSON"), "stringify"), {jobj(d - 1)})}), "n"); return num(d - 1);
    default: return mk(E_COND, "", {boolean(d - 1), num(d - 1), num(d - 1)});
  }
}
Node *Gen::str(int d) {
  if (d <= 0) {
    if (r.chance(0.5)) if (Node *v = var('S')) return v;
    return lit_str();
  }
  switch (r.below(20)) {
    case 17:  // the receiver of a host function that calls back or runs a script first
      if (!c.calls || !c.applies) return str(d - 1);
      if (r.chance(0.5)) return call(dot(V("hexec"), "apply"), {str(d - 1), mk(E_ARRAY, "", {mknum((double) r.below(4))})});
      return call(dot(V("hthis"), "apply"), {str(d - 1), mk(E_ARRAY, "", {V(r.chance(0.5) ? "meth3" : "meth4"), num(d - 1), obj(d - 1)})});
    case 18: if (Node *v = var('S')) return mk(E_ASSIGN, "", {v, str(d - 1)}); return str(d - 1);
    case 19: return mk(E_ASSIGN, "", {mk(E_IDX, "", {obj(d - 1), dynkey()}), str(d - 1)});
    case 0: case 1: return lit_str();
    case 2: case 3: if (Node *v = var('S')) return v; return lit_str();
    case 4: case 5: case 6: return cap(bin("+", str(d - 1), str(d - 1)), c.bigstr && r.chance(0.1) ? 1200 : (int) r.range(5, 140));
    case 7: return call(dot(str(d - 1), "slice"), {mknum((double) r.below(6)), mknum((double) r.range(-3, 60))});
    case 8: return dot(obj(d - 1), "s");
    case 9: return mk(E_OR, "", {mk(E_IDX, "", {arr(d - 1), mknum((double) r.below(4))}), lit_str()});
    case 10: if (c.ffi) return cap(call(V("f_cat_"), {str(d - 1), str(d - 1)}), 150); return str(d - 1);
    case 11: return mk(E_TYPEOF, "", {expr("NSBOAR"[r.below(6)], d - 1)});
    case 12: if (c.json && r.chance(0.6)) return cap(call(dot(V("JSON"), "stringify"), {jobj(d - 1)}), 400); return str(d - 1);
    case 13: return mk(E_OR, "", {mk(E_IDX, "", {obj(d - 1), dynkey()}), lit_str()});
    case 14: if (Node *f = callfn('S', d)) return f; return str(d - 1);
    case 15: return mk(E_COND, "", {boolean(d - 1), str(d - 1), str(d - 1)});
    default: return mk(E_OR, "", {mk(E_IDX, "", {str(d - 1), mknum((double) r.below(5))}), S_("none")});
  }
}
Node *Gen::boolean(int d) {
  if (d <= 0) return mk(E_BOOL, "", {});
  switch (r.below(8)) {
    case 0: { Node *b = mk(E_BOOL); b->num = (double) r.below(2); return b; }
    case 1: if (Node *v = var('B')) return v; return boolean(d - 1);
    case 2: return bin(r.chance(0.5) ? "<" : ">=", num(d - 1), num(d - 1));
    case 3: return bin(r.chance(0.5) ? "===" : "!==", str(d - 1), str(d - 1));
    case 4: return bin(r.chance(0.5) ? "===" : "!==", obj(d - 1), obj(d - 1));
    case 5: return mk(E_NOT, "", {boolean(d - 1)});
    case 6: return mk(r.chance(0.5) ? E_AND : E_OR, "", {boolean(d - 1), boolean(d - 1)});
    default: if (c.ffi) return call(V("f_not_"), {boolean(d - 1)}); return bin("===", num(d - 1), num(d - 1));
  }
}
Node *Gen::obj(int d) {
  if (d <= 0) {
    if (r.chance(0.8)) if (Node *v = var('O')) return v;
    return call(V("mk0"), {mknum((double) r.below(100)), lit_str()});
  }
  switch (r.below(16)) {
    case 14: if (c.calls && r.chance(0.6)) return thisof(d); return obj(d - 1);
    case 15: if (Node *v = var('O')) return mk(E_ASSIGN, "", {v, obj(d - 1)}); return obj(d - 1);
    case 0: case 1: if (Node *v = var('O')) return v; return obj(0);
    case 2: case 3: {
      Node *o = mk(E_OBJ);
      o->names = {"n", "s", "o", "a", "m"};
      o->c = {num(d - 1), str(d - 1), r.chance(0.4) ? obj(d - 1) : mk(E_NULL), arr(d - 1), V("meth" + std::to_string(r.below(5)))};
      return o;
    }
    case 4: case 5: return call(V("mk0"), {num(d - 1), str(d - 1)});
    case 6: case 7: return mk(E_OR, "", {dot(obj(d - 1), "o"), obj(d - 1)});
    case 8: return call(dot(V("Object"), "create"), {obj(d - 1)});
    case 9: if (c.applies && r.chance(0.4)) return call(dot(V("id"), "apply"), {obj(d - 1), mk(E_ARRAY, "", {obj(d - 1), num(d - 1)})}); return call(V("id"), {obj(d - 1)});
    case 10: return call(V("mkobj"), {num(d - 1), str(d - 1)});
    case 11: return mk(E_OR, "", {call(V("kept"), {mknum((double) r.below(6))}), obj(d - 1)});
    case 12: if (Node *f = callfn('O', d)) return f; return obj(d - 1);
    default: return mk(E_OR, "", {mk(E_IDX, "", {objarr(d - 1), mknum((double) r.below(3))}), obj(d - 1)});
  }
}
Node *Gen::arr(int d) {
  if (d <= 0) {
    if (r.chance(0.7)) if (Node *v = var('A')) return v;
    return mk(E_ARRAY);
  }
  switch (r.below(6)) {
    case 0: if (Node *v = var('A')) return v; return arr(0);
    case 1: case 2: { Node *a = mk(E_ARRAY); int n = (int) r.below(5); for (int i = 0; i < n; i++) a->c.push_back(str(d - 1)); return a; }
    case 3: return dot(obj(d - 1), "a");
    case 4: if (Node *v = var('A')) { std::vector<Node *> a = {mknum((double) r.range(-2, 4)), mknum((double) r.below(3))}; int n = (int) r.below(3); for (int i = 0; i < n; i++) a.push_back(str(d - 1)); return call(dot(v, "splice"), a); } return arr(d - 1);
    default: if (Node *f = callfn('A', d)) return f; return arr(d - 1);
  }
}
Node *Gen::objarr(int d) {
  if (r.chance(0.5)) if (Node *v = var('R')) return v;
  Node *a = mk(E_ARRAY);
  int n = (int) r.below(3);
  for (int i = 0; i < n; i++) a->c.push_back(obj(d - 1));
  return a;
}
Node *Gen::jobj(int d) {
  if (r.chance(0.4)) if (Node *v = var('J')) return v;
  Node *o = mk(E_OBJ);
  o->names = {"n", "txt", "lst"};
  Node *l = mk(E_ARRAY);
  int n = (int) r.below(3);
  for (int i = 0; i < n; i++) l->c.push_back(r.chance(0.5) ? num(d - 1) : str(d - 1));
  o->c = {num(d - 1), str(d - 1), l};
  if (d > 1 && r.chance(0.4)) { o->names.push_back("sub"); o->c.push_back(r.chance(0.7) ? jobj(d - 1) : boolean(1)); }
  if (r.chance(0.2)) { o->names.push_back("longer_key_name"); o->c.push_back(r.chance(0.5) ? mk(E_NULL) : boolean(1)); }
  return o;
}
void Gen::block(std::vector<Node *> &out, int n, int d) {
  size_t k = vars.size();
  nest++;
  for (int i = 0; i < n; i++) stmt(out, d);
  nest--;
  vars.resize(k);
}
void Gen::stmt(std::vector<Node *> &out, int d) {
  bool top = nest == 0 && infn == 0;
  if ((int) r.below(100) < c.emit) { out.push_back(estmt(call(V("emit"), {expr("NSBOARJ"[r.below(7)], d)}))); return; }
  if (c.natural && r.chance(0.07)) {
    if (c.ffi && r.chance(0.4)) {
      static const int WHAT = 3;
      int k = (int) r.below(WHAT);
      Node *bad = k == 0 ? call(V("die"), {S_("natural failure of an argument")}) : k == 1 ? V("no_such_argument") : dot(mk(E_NULL), "x");
      bad = failing_arg(bad);
      if (r.chance(0.7)) { Node *f = fnode({"lq"}, {mk(S_RETURN, "", {bad})}, "N>N"); bad = call(V("htry"), {f, obj(0), num(0)}); if (r.chance(0.5)) bad = call(V("id"), {bad}); bad = call(V("emit"), {bad}); }
      out.push_back(estmt(bad));
      return;
    }
    switch (r.below(9)) {
      case 0: out.push_back(estmt(call(V("die"), {S_("natural failure")}))); break;
      case 1: out.push_back(estmt(V("no_such_variable"))); break;
      case 2: out.push_back(estmt(call(mknum(5), {num(1)}))); break;
      case 3: out.push_back(estmt(dot(mk(E_NULL), "x"))); break;
      case 4: out.push_back(estmt(bin("+", num(1), str(1)))); break;
      case 5: { std::string k = fresh("k"); k[0] = 'l'; out.push_back(mk(S_FORIN, k, {mknum(7), estmt(call(V("emit"), {V(k)}))})); break; }
      case 6: out.push_back(estmt(call(dot(V("JSON"), "parse"), {S_("{\"a\": [1, 2")}))); break;
      case 7: out.push_back(mk(S_ASSIGN, "", {V("no_such_variable"), num(1)})); break;
      case 8: out.push_back(estmt(call(dot(obj(1), "no_such_method"), {num(1)}))); break;
    }
    return;
  }
  if (c.cps && r.chance(0.15)) {
    if (nest >= 2 || in_cb || r.chance(0.4)) { out.push_back(estmt(call(V("cp"), {mknum((double) r.below(1000))}))); return; }
    nest++;
    Node *f = func("N>N");
    nest--;
    Node *cp = call(V("cp"), {mknum((double) r.below(1000))});
    if (c.ffi && r.chance(0.4)) cp = failing_arg(cp);
    f->c.insert(f->c.begin() + (long) r.below(f->c.size() + 1), estmt(cp));
    Node *t = call(V("htry"), {f, obj(d - 1), num(d - 1)});
    // what surrounds the recovered failure goes on afterwards
    int k = (int) r.below(4);
    if (k == 0) t = call(V("id"), {t});
    else if (k == 1) t = call(V("hcall"), {V("id"), num(0), t, call(V("id"), {obj(0)})});
    else if (k == 2) t = mk(E_ARRAY, "", {str(0), t, num(1)});
    out.push_back(estmt(call(V("emit"), {t})));
    return;
  }
  switch (r.below(28)) {
    case 27: {
      if (!c.deep || loop || nest > 1) return;
      std::string s = fresh("_g"), i = fresh("i"), e = fresh("e");
      bool imports = c.ffi && r.chance(0.3), stay = top && !imports && r.chance(0.3);
      i[0] = e[0] = 'l';
      if (!stay) s[0] = 'l';
      if (!imports && !c.bigstr) return;
      std::vector<Node *> b;
      auto times = [&](double n, Node *body) { return mk(S_FOR, "", {mk(S_LET, i, {mknum(0)}), bin("<", V(i), mknum(n)), mk(S_INCR, "++", {V(i)}), body}); };
      if (imports) {  // many live imports
        double n = (double) r.range(5, 24);
        b = {mk(S_LET, s, {mk(E_ARRAY)}),
          times(n, estmt(call(dot(V(s), "push"), {call(V("ffi"), {S_(r.chance(0.5) ? "int f_add(int, int)" : "int f_add(int,int)")})}))),
          mk(S_LET, e, {mknum(0)}),
          times(n, mk(S_ASSIGN, "", {V(e), modk(bin("+", V(e), call(mk(E_IDX, "", {V(s), V(i)}), {V(i), num(0)})))})),
          estmt(call(V("emit"), {V(e)}))};
      } else {  // a string of many kilobytes, held in a variable or an array, with short strings around it
        bool in_arr = r.chance(0.5);
        Node *first = bin("+", str(0), S_("0123456789abcdef"));
        Node *held = in_arr ? mk(E_IDX, "", {V(s), mknum(1)}) : V(s);
        b = {mk(S_LET, s, {in_arr ? mk(E_ARRAY, "", {lit_str(), first, lit_str()}) : first}),
          times((double) r.range(6, 9), mk(S_ASSIGN, "", {held, bin("+", held, held)})),
          mk(S_LET, e, {bin("+", lit_str(), S_("tail"))})};
        for (int q = 0; q < 2; q++) {
          block(b, 1, 1);
          int at = (int) r.range(0, 30000);
          b.push_back(estmt(call(V("emit"), {mk(E_ARRAY, "", {dot(held, "length"), call(dot(held, "slice"), {mknum((double) at), mknum((double) (at + r.range(1, 30)))}), mk(E_OR, "", {call(dot(held, "at"), {mknum((double) r.below(20000))}), mknum(0)}), V(e)})})));
        }
        if (r.chance(0.5)) b.push_back(estmt(call(V("emit"), {bin("===", held, bin("+", call(dot(held, "slice"), {mknum(0), mknum(700)}), call(dot(held, "slice"), {mknum(700), mknum(100000)})))})));
      }
      if (stay) for (auto *x : b) out.push_back(x);
      else out.push_back(mk(S_BLOCK, "", b));
      return;
    }
    case 26: {  // walk an array
      if (nest > 2 || loop > 1) return;
      std::string k = fresh("k"), s = fresh("c");
      k[0] = s[0] = 'l';
      Node *a = var('A');
      if (!a) return;
      Node *w = mk(S_FORIN, k, {a, mk(S_ASSIGN, "", {V(s), modk(bin("+", V(s), bin("+", mknum(1), dot(mk(E_IDX, "", {a, V(k)}), "length"))))})});
      if (r.chance(0.4)) w->c.push_back(mk(S_LET, fresh("l"), {mk(E_ARRAY, "", {bin("+", V(k), lit_str())})}));
      out.push_back(mk(S_BLOCK, "", {mk(S_LET, s, {mknum(0)}), w, estmt(call(V("emit"), {V(s)}))}));
      return;
    }
    case 0: case 1: case 2: case 3: case 4: {  // new variable
      char t = "NSSOOAARBJF"[r.below(11)];
      if (t == 'F' && !c.ffi) return;
      std::string n = fresh(t == 'F' ? "_x" : std::string(1, (char) tolower(t)).insert(0, "_").c_str());
      if (!top) n[0] = 'l';
      Node *e = t == 'F' ? call(V("ffi"), {S_("int f_add(int, int)")}) : expr(t, d);
      out.push_back(mk(S_LET, n, {e}));
      vars.push_back({n, t});
      return;
    }
    case 5: { char t = "NSOAB"[r.below(5)]; if (Node *v = var(t)) { out.push_back(mk(S_ASSIGN, "", {v, expr(t, d)})); } return; }
    case 6: out.push_back(mk(S_ASSIGN, "", {dot(obj(d - 1), "n"), num(d)})); return;
    case 7: out.push_back(mk(S_ASSIGN, "", {dot(obj(d - 1), "s"), str(d)})); return;
    case 8: out.push_back(mk(S_ASSIGN, "", {dot(obj(d - 1), "o"), r.chance(0.2) ? mk(E_NULL) : obj(d)})); return;
    case 9: out.push_back(mk(S_ASSIGN, "", {mk(E_IDX, "", {obj(d - 1), dynkey()}), str(d)})); return;
    case 10: { std::vector<Node *> a; int n = 1 + (int) r.below(2); for (int i = 0; i < n; i++) a.push_back(str(d)); out.push_back(estmt(call(dot(arr(d - 1), "push"), a))); return; }
    case 11: if (Node *v = var('R')) out.push_back(estmt(call(dot(v, "push"), {obj(d)}))); return;
    case 12: if (Node *v = var('A')) { std::vector<Node *> a = {mknum((double) r.range(-2, 4)), mknum((double) r.below(3))}; int n = (int) r.below(3); for (int i = 0; i < n; i++) a.push_back(str(d - 1)); out.push_back(estmt(call(dot(v, "splice"), a))); } return;
    case 13:
      if (Node *v = var('A')) {  // never leaves holes
        if (r.chance(0.4)) { out.push_back(mk(S_ASSIGN, "", {mk(E_IDX, "", {v, dot(v, "length")}), r.chance(0.5) ? lit_str() : S_("x")})); return; }
        double k = (double) r.below(4);
        Node *set = mk(S_ASSIGN, "", {mk(E_IDX, "", {v, mknum(k)}), str(0)});
        out.push_back(mk(S_IF, "", {bin(">", dot(v, "length"), mknum(k)), mk(S_BLOCK, "", {set})}));
      }
      return;
    case 14: {
      if (nest > 2) return;
      Node *b1 = mk(S_BLOCK), *b2 = mk(S_BLOCK);
      Node *cnd = boolean(d);
      block(b1->c, 1 + (int) r.below(2), d - 1);
      block(b2->c, (int) r.below(2), d - 1);
      Node *n = mk(S_IF, "", {cnd, b1});
      if (r.chance(0.5)) n->c.push_back(b2);
      out.push_back(n);
      return;
    }
    case 15: case 16: {
      if (nest > 2 || loop > 1) return;
      std::string i = fresh("i");
      i[0] = 'l';
      Node *n = mk(S_FOR, "", {mk(S_LET, i, {mknum(0)}), bin("<", V(i), mknum((double) r.range(1, 4))), mk(S_INCR, "++", {V(i)})});
      size_t k = vars.size();
      loop++;
      block(n->c, 1 + (int) r.below(3), d - 1);
      if (r.chance(0.4)) {
        Node *b = mk(S_BLOCK, "", {mk(r.chance(0.5) ? S_BREAK : S_CONTINUE)});
        n->c.insert(n->c.begin() + 3 + (long) r.below(n->c.size() - 2), mk(S_IF, "", {bin("===", V(i), mknum((double) r.below(3))), b}));
      }
      loop--;
      vars.resize(k);
      out.push_back(n);
      return;
    }
    case 17: {  // while with a counter
      if (nest > 2 || loop > 1) return;
      std::string i = fresh("w");
      i[0] = 'l';
      if (top) i[0] = 'g';
      out.push_back(mk(S_LET, i, {mknum((double) r.range(1, 3))}));
      Node *n = mk(S_WHILE, "", {bin(">", V(i), mknum(0)), mk(S_INCR, "--", {V(i)})});
      loop++;
      block(n->c, 1 + (int) r.below(2), d - 1);
      if (r.chance(0.3)) n->c.push_back(mk(S_IF, "", {boolean(1), mk(S_BLOCK, "", {mk(r.chance(0.5) ? S_BREAK : S_CONTINUE)})}));
      loop--;
      out.push_back(n);
      return;
    }
    case 18: {  // copy an object property by property
      if (nest > 2 || loop > 1) return;
      std::string cpy = fresh("_o"), k = fresh("k");
      if (!top) cpy[0] = 'l';
      k[0] = 'l';
      Node *src = var('O');
      if (!src) return;
      out.push_back(mk(S_LET, cpy, {mk(E_OBJ)}));
      Node *n = mk(S_FORIN, k, {src, mk(S_ASSIGN, "", {mk(E_IDX, "", {V(cpy), V(k)}), mk(E_IDX, "", {src, V(k)})})});
      if (r.chance(0.5)) n->c.push_back(estmt(call(V("emit"), {V(k)})));
      if (r.chance(0.4)) { loop++; nest++; size_t kv = vars.size(); int keep = c.emit; c.emit = 90; stmt(n->c, 1); c.emit = keep; vars.resize(kv); nest--; loop--; }
      out.push_back(n);
      if (c.calls && r.chance(0.3)) {  // a loop whose body deletes and adds properties of the object it walks
        std::string k2 = fresh("k"), g = fresh("s"), k3 = fresh("k");
        k3[0] = 'l';
        k2[0] = g[0] = 'l';
        Node *w = mk(S_FORIN, k2, {V(cpy), estmt(call(V("emit"), {V(k2)}))});
        Node *act = estmt(call(V("hdel"), {V(cpy), r.chance(0.6) ? V(k2) : r.chance(0.5) ? S_("nsoam"[r.below(5)] == 'n' ? "n" : "s") : dynkey()}));
        if (r.chance(0.5)) act = mk(S_IF, "", {boolean(2), mk(S_BLOCK, "", {act})});
        w->c.push_back(act);
        while (r.chance(0.4)) w->c.push_back(estmt(call(V("hdel"), {V(cpy), S_(std::string(1, "nsoam"[r.below(5)]))})));
        if (r.chance(0.5)) w->c.push_back(mk(S_ASSIGN, "", {mk(E_IDX, "", {V(cpy), dynkey()}), str(1)}));
        if (r.chance(0.4)) { w->c.push_back(mk(S_LET, g, {mk(E_OBJ)})); Node *o2 = w->c.back()->c[0]; o2->names = {"x", "y"}; o2->c = {str(1), str(1)}; }
        if (c.gcs && r.chance(0.4)) { Node *b = mk(E_BOOL); b->num = (double) r.below(2); w->c.push_back(estmt(call(V("gc"), {b}))); }
        if (r.chance(0.3)) {  // two loops over one object, one within the other
          Node *w2 = mk(S_FORIN, k3, {V(cpy), estmt(call(V("emit"), {bin("+", V(k3), S_("in"))}))});
          if (r.chance(0.4)) w2->c.push_back(estmt(call(V("emit"), {V(k2)})));
          std::vector<Node *> body(w->c.begin() + 2, w->c.end());
          w->c.resize(2);
          for (auto *x : body) (r.chance(0.7) ? w2 : w)->c.push_back(x);
          w->c.push_back(w2);
        }
        out.push_back(w);
      }
      return;
    }
    case 19: {  // new function
      if (!top || !c.calls) return;
      static const char *SIG[] = {"NS>N", "SN>S", "OO>O", "OS>N", "AS>A", "NN>N", ">S", "O>S", "NSO>O"};
      std::string sg = SIG[r.below(9)];
      std::string n = fresh("_f");
      nest = 1;
      Node *f = func(sg);
      nest = 0;
      out.push_back(mk(S_LET, n, {f}));
      fns.push_back({n, sg});
      return;
    }
    case 20: if (c.calls) out.push_back(estmt(call(V("keep"), {mknum((double) r.below(6)), obj(d)}))); return;
    case 21: if (c.gcs && c.emit < 90 && r.chance(0.3)) { out.push_back(estmt(call(V("emit"), {call(V("gc"), {expr("SOA"[r.below(3)], d - 1)})}))); return; }
      if (c.gcs) { Node *b = mk(E_BOOL); b->num = (double) r.below(2); out.push_back(estmt(call(V("gc"), {b}))); } return;
    case 22: if (c.ffi && nest < 2 && !in_cb) {
      nest++;
      Node *f = func("NO>N", true);
      nest--;
      out.push_back(estmt(call(V("emit"), {call(V("f_each_"), {mknum((double) r.range(1, 3)), f, obj(d - 1)})})));
    } return;
    case 23:
      if (r.chance(0.5)) out.push_back(estmt(call(V("hset"), {obj(d - 1), dynkey(), str(d)})));
      else out.push_back(estmt(call(V("hdel"), {obj(d - 1), dynkey()})));
      return;
    case 24: {
      if (Node *v = var('S')) if (r.chance(0.5)) { out.push_back(mk(S_OPASSIGN, "+", {v, lit_str()})); out.push_back(mk(S_ASSIGN, "", {v, cap(v, 90)})); return; }
      if (Node *v = var('N')) { out.push_back(mk(S_OPASSIGN, r.chance(0.5) ? "+" : "-", {v, mknum((double) r.below(50))})); out.push_back(mk(S_ASSIGN, "", {v, modk(v)})); }
      return;
    }
    case 25:
      if (c.calls && r.chance(0.5)) out.push_back(estmt(call(V("emit"), {call(V("hstruct"), {num(d - 1), cap(str(d - 1), 50)})})));
      return;
  }
}
std::vector<Node *> Gen::prelude() {
  std::vector<Node *> o;
  auto thisn = [] { return dot(mk(E_THIS), "n"); };
  o.push_back(mk(S_LET, "meth0", {fnode({"lx0"}, {mk(S_RETURN, "", {modk(bin("+", thisn(), V("lx0")))})}, "N>N")}));
  o.push_back(mk(S_LET, "meth1", {fnode({"lx1"}, {mk(S_ASSIGN, "", {thisn(), modk(bin("+", thisn(), mknum(1)))}), mk(S_RETURN, "", {modk(bin("+", dot(dot(mk(E_THIS), "s"), "length"), V("lx1")))})}, "N>N")}));
  o.push_back(mk(S_LET, "meth2", {fnode({"lx2"}, {estmt(call(dot(dot(mk(E_THIS), "a"), "push"), {bin("+", S_("pushed_"), cap(dot(mk(E_THIS), "s"), 20))})), mk(S_RETURN, "", {modk(bin("+", dot(dot(mk(E_THIS), "a"), "length"), V("lx2")))})}, "N>N")}));
  // methods whose receiver is needed again after calls of other methods on other temporary objects
  auto tmp = [&](const char *meth, const char *x, const char *txt) {
    Node *t = mk(E_OBJ);
    t->names = {"n", "s", "o", "a", "m"};
    t->c = {bin("+", V(x), mknum(1)), bin("+", S_(txt), cap(dot(mk(E_THIS), "s"), 30)), mk(E_NULL), mk(E_ARRAY, "", {S_("only element")}), V(meth)};
    return t;
  };
  o.push_back(mk(S_LET, "meth3", {fnode({"lx3"}, {
    mk(S_LET, "lr3", {call(dot(call(V("mk0"), {V("lx3"), bin("+", S_("text of a temporary "), cap(dot(mk(E_THIS), "s"), 20))}), "m"), {V("lx3")})}),
    mk(S_RETURN, "", {modk(bin("+", bin("+", thisn(), V("lr3")), dot(dot(mk(E_THIS), "s"), "length")))})}, "N>N")}));
  o.push_back(mk(S_LET, "meth4", {fnode({"lx4"}, {
    mk(S_LET, "lr4", {bin("+", call(dot(tmp("meth3", "lx4", "made by meth4 "), "m"), {V("lx4")}), call(dot(tmp("meth2", "lx4", "second of meth4 "), "m"), {mknum(2)}))}),
    mk(S_RETURN, "", {modk(bin("+", bin("+", thisn(), V("lr4")), dot(dot(mk(E_THIS), "s"), "length")))})}, "N>N")}));
  // methods of strings
  o.push_back(mk(S_LET, "smeth0", {fnode({"lx5"}, {mk(S_RETURN, "", {modk(bin("+", dot(mk(E_THIS), "length"), V("lx5")))})}, "N>N")}));
  o.push_back(mk(S_LET, "smeth1", {fnode({"lx6"}, {
    mk(S_LET, "lr6", {call(dot(call(V("mk0"), {V("lx6"), bin("+", S_("made by smeth1 "), cap(mk(E_THIS), 12))}), "m"), {V("lx6")})}),
    mk(S_RETURN, "", {modk(bin("+", bin("+", dot(mk(E_THIS), "length"), V("lr6")), mk(E_OR, "", {call(dot(mk(E_THIS), "at"), {mknum(0)}), mknum(3)})))})}, "N>N")}));
  // deep recursion through methods of temporary objects, each of which uses its receiver again afterwards
  o.push_back(mk(S_LET, "rec1", {fnode({"ly0"}, {mk(S_LET, "ly1", {mknum(0)}),
    mk(S_IF, "", {bin(">", V("ly0"), mknum(0)), mk(S_BLOCK, "", {mk(S_ASSIGN, "", {V("ly1"), call(dot(tmp("rec1", "ly0", "made by rec1 "), "m"), {bin("-", V("ly0"), mknum(1))})})})}),
    mk(S_RETURN, "", {modk(bin("+", bin("+", thisn(), V("ly1")), dot(dot(mk(E_THIS), "s"), "length")))})}, "N>N")}));
  {  // deep recursion: objects and strings that only block scopes far below hold
    Node *q1 = mk(E_OBJ), *q2 = mk(E_OBJ);
    q1->names = {"q"};
    q1->c = {mk(E_ARRAY, "", {bin("+", S_("blk "), V("lsr"))})};
    q2->names = {"w"};
    q2->c = {bin("+", S_("in "), mk(E_IDX, "", {V("lzr"), mknum(0)}))};
    Node *rec = call(V("rec0"), {bin("-", V("lnr"), mknum(1)), bin("+", cap(V("lsr"), 12), S_("x"))});
    auto len0 = [&](Node *a) { return dot(mk(E_IDX, "", {a, mknum(0)}), "length"); };
    Node *in = mk(S_IF, "", {bin("===", V("lir"), mknum(1)), mk(S_BLOCK, "", {mk(S_LET, "lyr", {q2}),
      mk(S_ASSIGN, "", {V("lrr"), bin("+", bin("+", rec, dot(dot(V("lyr"), "w"), "length")), len0(V("lzr")))})})});
    Node *lp = mk(S_FOR, "", {mk(S_LET, "lir", {mknum(0)}), bin("<", V("lir"), mknum(2)), mk(S_INCR, "++", {V("lir")}),
      mk(S_LET, "lzr", {mk(E_ARRAY, "", {bin("+", mk(E_IDX, "", {dot(V("lpr"), "q"), mknum(0)}), S_("z"))})}), in});
    Node *blk = mk(S_BLOCK, "", {mk(S_LET, "lpr", {q1}), lp, mk(S_ASSIGN, "", {V("lrr"), bin("+", V("lrr"), len0(dot(V("lpr"), "q")))})});
    o.push_back(mk(S_LET, "rec0", {fnode({"lnr", "lsr"}, {mk(S_LET, "lor", {mk(E_ARRAY, "", {bin("+", S_("deep "), V("lsr"))})}), mk(S_LET, "lrr", {mknum(0)}),
      mk(S_IF, "", {bin(">", V("lnr"), mknum(0)), blk}), mk(S_RETURN, "", {modk(bin("+", V("lrr"), len0(V("lor"))))})}, "NS>N")}));
  }
  o.push_back(mk(S_LET, "amul0", {fnode({"lx7"}, {mk(S_LET, "lt7", {mk(E_ARRAY, "", {bin("+", S_("garbage "), S_("text"))})}), mk(S_RETURN, "", {modk(bin("*", dot(mk(E_IDX, "", {V("lt7"), mknum(0)}), "length"), V("lx7")))})}, "N>N")}));
  o.push_back(mk(S_LET, "mkf0", {fnode({"lx8"}, {mk(S_IF, "", {bin(">", V("lx8"), mknum(100)), mk(S_BLOCK, "", {mk(S_RETURN, "", {V("amul0")})})}), mk(S_RETURN, "", {fnode({"lx9"}, {mk(S_RETURN, "", {modk(bin("+", V("lx9"), mknum(1)))})}, "N>N")})}, "N>F")}));
  Node *ob = mk(E_OBJ);
  ob->names = {"n", "s", "o", "a", "m"};
  ob->c = {V("lp1"), V("lp2"), mk(E_NULL), mk(E_ARRAY, "", {V("lp2"), bin("+", V("lp2"), S_("!"))}), V("meth1")};
  o.push_back(mk(S_LET, "mk0", {fnode({"lp1", "lp2"}, {mk(S_RETURN, "", {ob})}, "NS>O")}));
  auto imp = [&](const char *n, const char *sig) { o.push_back(mk(S_LET, n, {call(V("ffi"), {S_(sig)})})); };
  imp("f_add_", "int f_add(int, int)");
  imp("f_not_", "bool f_not(bool)");
  imp("f_cat_", "char *f_cat(char *, char *)");
  imp("f_len_", "int f_len(struct mg_str *)");
  imp("f_each_", "int f_each(int, int (*)(int, userdata), userdata)");
  o.push_back(mk(S_LET, "gz_o0", {call(V("mk0"), {mknum(1), S_("first object")})}));
  o.push_back(mk(S_LET, "gz_s0", {S_("initial string value")}));
  o.push_back(mk(S_LET, "gz_a0", {mk(E_ARRAY, "", {S_("element zero"), S_("el1")})}));
  return o;
}
std::vector<Node *> Gen::program() {
  std::vector<Node *> o;
  for (int i = 0; i < c.stmts; i++) { size_t k = o.size(); stmt(o, c.depth); if (o.size() == k && r.chance(0.7)) stmt(o, c.depth); }
  return o;
}
std::vector<Node *> gen_program(uint64_t seed, Model &m, GenCfg c, const std::string &pre, uint64_t fuel) {
  for (int att = 0; att < 12; att++) {
    Rng r(seed * 31 + (uint64_t) att);
    Gen g(r, m, c, pre);
    auto p = g.program();
    Model t = m;
    t.fuel = fuel;
    t.limit = ~0ull;
    if (c.cps) t.host["cp"] = [](Model &, const MVal &, std::vector<MVal> &a) { return a[0]; };
    try { t.run(p); }
    catch (MFuel &) { if (att % 2) { if (c.stmts > 2) c.stmts--; } else if (c.depth > 1) c.depth--; continue; }
    catch (MErr &) { if (!c.natural) { S.probe("generator_retry"); continue; } }
    // strings and arrays must stay small
    return p;
  }
  return {};
}
