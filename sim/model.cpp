#include "model.h"
#include <algorithm>
#include <cmath>

Node *mk(NK k, std::string s, std::vector<Node *> c) { Node *n = new Node(); n->k = k; n->s = std::move(s); n->c = std::move(c); return n; }
Node *mknum(double d) { Node *n = mk(E_NUM); n->num = d; return n; }

bool truthy(const MVal &v) {
  switch (v.t) {
    case M_UNDEF: case M_NULL: return false;
    case M_BOOL: return v.n != 0;
    case M_NUM: return v.n != 0 && !std::isnan(v.n);
    case M_STR: return !v.s.empty();
    case M_FFI: return false;  // the engine does not count imported functions as true
    default: return true;
  }
}
static bool same(const MVal &a, const MVal &b) {
  if (a.t != b.t) return false;
  switch (a.t) {
    case M_NUM: return a.n == b.n;
    case M_BOOL: return a.n == b.n;
    case M_PTR: return a.n == b.n;
    case M_STR: return a.s == b.s;
    case M_OBJ: case M_ARR: return a.ref == b.ref;
    case M_FN: return a.fn == b.fn;
    case M_HOST: case M_FFI: return a.s == b.s;
    default: return true;
  }
}
static std::string numstr(double d) {
  if (std::isnan(d)) return "NaN";
  if (d == (long long) d && std::fabs(d) < 1e15) return strf("%lld", (long long) d);
  return strf("%.17g", d);
}
static std::string keystr(const MVal &v) {
  if (v.t == M_STR) return v.s;
  if (v.t == M_NUM) return numstr(v.n);
  if (v.t == M_UNDEF) return "undefined";
  if (v.t == M_NULL) return "null";
  if (v.t == M_BOOL) return v.n != 0 ? "true" : "false";
  throw MErr{"bad key"};
}
static bool is_index(const std::string &k, size_t &i) {
  if (k.empty() || k.size() > 8) return false;
  for (char c : k) if (c < '0' || c > '9') return false;
  i = (size_t) atol(k.c_str());
  return std::to_string(i) == k;
}
void Model::del(const MVal &o, const std::string &key) {
  if (!o.is_obj() || o.ref < 0) return;
  auto &ps = heap[o.ref].props;
  for (size_t i = 0; i < ps.size(); i++)
    if (ps[i].first == key) {
      ps.erase(ps.begin() + (long) i);
      for (auto *it : iters) if (it->ref == o.ref) for (size_t j = 0; j < it->keys.size(); j++) if (it->keys[j] == key) { it->keys.erase(it->keys.begin() + (long) j); break; }
      return;
    }
}
void Model::setraw(const MVal &o, const std::string &key, const MVal &v) {
  MObj &x = heap[o.ref];
  size_t i;
  if (x.arr && is_index(key, i)) {
    if (i >= x.el.size()) x.el.resize(i + 1);
    x.el[i] = v;
    return;
  }
  if (MVal *p = x.find(key)) { *p = v; return; }
  x.props.insert(x.props.begin(), {key, v});
}
void Model::set(const MVal &o, const std::string &key, const MVal &v) {
  if (!o.is_obj()) throw MErr{"set on non-object"};
  effect();
  setraw(o, key, v);
}
MVal Model::get(const MVal &o, const std::string &key) {
  if (o.t == M_STR) {
    size_t i;
    if (key == "length") return MVal::num((double) o.s.size());
    if (is_index(key, i)) return i < o.s.size() ? MVal::str(std::string(1, o.s[i])) : MVal();
    if (key == "slice" || key == "indexOf" || key == "at" || key == "charCodeAt") return MVal::host(("str." + key).c_str());
    throw MErr{"type error"};
  }
  if (key == "apply") return MVal::host("fn.apply");
  if (o.t == M_ARR) {
    if (key == "length") return MVal::num((double) heap[o.ref].el.size());
    if (key == "push" || key == "splice") return MVal::host(("arr." + key).c_str());
    size_t i;
    if (is_index(key, i)) return i < heap[o.ref].el.size() ? heap[o.ref].el[i] : MVal();
  }
  if (!o.is_obj()) throw MErr{"type error"};
  MVal cur = o;
  for (int hops = 0; hops < 1000; hops++) {
    if (!cur.is_obj()) return MVal();
    if (MVal *p = heap[cur.ref].find(key)) return *p;
    MVal *pr = heap[cur.ref].find("__p");
    if (!pr) return MVal();
    cur = *pr;
  }
  return MVal();
}
MVal *Model::lookup(const std::string &n) {
  for (size_t i = scopes.size(); i-- > 0;) {
    if (scope_obj[i] >= 0) { if (MVal *p = heap[scope_obj[i]].find(n)) return p; continue; }
    for (auto &p : scopes[i]) if (p.first == n) return &p.second;
  }
  return heap[0].find(n);
}
void Model::define(const std::string &n) {
  if (!scopes.empty()) {
    if (scope_obj.back() >= 0) {
      MObj &o = heap[scope_obj.back()];
      if (!o.find(n)) { effect(); heap[scope_obj.back()].props.insert(heap[scope_obj.back()].props.begin(), {n, MVal()}); }
      return;
    }
    for (auto &p : scopes.back()) if (p.first == n) return;
    scopes.back().push_back({n, MVal()});
    return;
  }
  if (!heap[0].find(n)) { effect(); heap[0].props.insert(heap[0].props.begin(), {n, MVal()}); }
}
void Model::assign(const std::string &n, const MVal &v) {
  for (size_t i = scopes.size(); i-- > 0;) {
    if (scope_obj[i] >= 0) { if (heap[scope_obj[i]].find(n)) { effect(); *heap[scope_obj[i]].find(n) = v; return; } continue; }
    for (auto &p : scopes[i]) if (p.first == n) { p.second = v; return; }
  }
  if (!heap[0].find(n)) throw MErr{"not defined"};
  effect();
  *heap[0].find(n) = v;
}
static int norm_idx(int i, int size) {
  if (i < 0) { i += size; if (i < 0) i = 0; }
  return i > size ? size : i;
}
MVal Model::call(const MVal &f, const MVal &self, std::vector<MVal> a) {
  if (fuel-- == 0) throw MFuel();
  if (f.t == M_FN) {
    if (++depth > 200) throw MFuel();
    scopes.emplace_back();
    scope_obj.push_back(-1);
    size_t mark = scopes.size();
    const Node *fn = f.fn;
    for (size_t i = 0; i < fn->names.size(); i++) scopes.back().push_back({fn->names[i], i < a.size() ? a[i] : MVal()});
    MVal saved = cur_this;
    cur_this = self;
    MVal res;
    struct Guard { Model *m; size_t mark; MVal saved; ~Guard() { m->scopes.resize(mark - 1); m->scope_obj.resize(mark - 1); m->cur_this = saved; m->depth--; } } g{this, mark, saved};
    retval = MVal();
    for (Node *st : fn->c) {
      Flow fl = exec(st);
      if (fl == RET) { res = retval; break; }
    }
    retval = MVal();
    return res;
  }
  if (f.t == M_HOST || f.t == M_FFI) {
    const std::string &nm = f.s;
    if (nm == "str.slice") {
      int n = (int) self.s.size(), b = norm_idx((int) a[0].n, n), e = a.size() > 1 ? norm_idx((int) a[1].n, n) : n;
      if (e < b) e = b;
      return MVal::str(self.s.substr(b, e - b));
    }
    if (nm == "str.indexOf") {
      int from = a.size() > 1 ? (int) a[1].n : 0;
      if (from < 0) from = 0;
      if (from > (int) self.s.size()) from = (int) self.s.size();
      size_t p = self.s.find(a[0].s, from);
      return MVal::num(p == std::string::npos ? -1 : (double) p);
    }
    if (nm == "str.at" || nm == "str.charCodeAt") {
      int i = norm_idx((int) a[0].n, (int) self.s.size());
      return i < (int) self.s.size() ? MVal::num((unsigned char) self.s[i]) : MVal();
    }
    if (nm == "arr.push") {
      effect();
      for (auto &x : a) heap[self.ref].el.push_back(x);
      return MVal::num((double) heap[self.ref].el.size());
    }
    if (nm == "arr.splice") {
      effect();
      MVal r = new_arr();
      auto &el = heap[self.ref].el;
      int n = (int) el.size(), st = norm_idx((int) a[0].n, n), d = a.size() > 1 ? (int) a[1].n : n - st;
      if (d > n - st) d = n - st;
      if (d < 0) d = 0;
      heap[r.ref].el.assign(el.begin() + st, el.begin() + st + d);
      el.erase(el.begin() + st, el.begin() + st + d);
      if (a.size() > 2) el.insert(el.begin() + st, a.begin() + 2, a.end());
      return r;
    }
    if (nm == "fn.apply") {
      std::vector<MVal> args;
      if (a.size() > 1 && a[1].t == M_ARR) args = heap[a[1].ref].el;
      MVal th = a.size() > 0 ? a[0] : MVal();
      MVal fn = self;
      return call(fn, th, args);
    }
    auto it = host.find(nm);
    if (it == host.end()) throw MErr{"no host function " + nm};
    return it->second(*this, self, a);
  }
  throw MErr{"calling non-callable"};
}
MVal Model::eval(const Node *n) {
  if (fuel-- == 0) throw MFuel();
  switch (n->k) {
    case E_NUM: return MVal::num(n->num);
    case E_STR: return MVal::str(n->s);
    case E_BOOL: return MVal::boolean(n->num != 0);
    case E_NULL: return MVal::null();
    case E_UNDEF: return MVal();
    case E_THIS: return cur_this;
    case E_VAR: { MVal *p = lookup(n->s); if (!p) throw MErr{"[" + n->s + "] is not defined"}; return *p; }
    case E_DOT: { MVal o = eval(n->c[0]); return get(o, n->s); }
    case E_IDX: { MVal o = eval(n->c[0]); MVal k = eval(n->c[1]); return get(o, keystr(k)); }
    case E_AND: { MVal a = eval(n->c[0]); return truthy(a) ? eval(n->c[1]) : a; }
    case E_OR: { MVal a = eval(n->c[0]); return truthy(a) ? a : eval(n->c[1]); }
    case E_NOT: return MVal::boolean(!truthy(eval(n->c[0])));
    case E_COND: return truthy(eval(n->c[0])) ? eval(n->c[1]) : eval(n->c[2]);
    case E_BIN: {
      MVal a = eval(n->c[0]), b = eval(n->c[1]);
      const std::string &o = n->s;
      if (o == "===") return MVal::boolean(same(a, b));
      if (o == "!==") return MVal::boolean(!same(a, b));
      if (a.t == M_STR && b.t == M_STR && o == "+") return MVal::str(a.s + b.s);
      if (a.t != M_NUM || b.t != M_NUM) throw MErr{"implicit type conversion is prohibited"};
      if (o == "+") return MVal::num(a.n + b.n);
      if (o == "-") return MVal::num(a.n - b.n);
      if (o == "*") return MVal::num(a.n * b.n);
      if (o == "%") { long long d = (long long) b.n; if (!d) return MVal::num(NAN); long long x = (long long) std::fabs(a.n) % (d < 0 ? -d : d); return MVal::num(a.n < 0 ? (double) -x : (double) x); }
      if (o == "<") return MVal::boolean(a.n < b.n);
      if (o == ">") return MVal::boolean(a.n > b.n);
      if (o == "<=") return MVal::boolean(a.n <= b.n);
      if (o == ">=") return MVal::boolean(a.n >= b.n);
      throw MErr{"op " + o};
    }
    case E_CALL: {
      // receiver: only a property access gives `this`
      const Node *cal = n->c[0];
      MVal self, f;
      if (cal->k == E_DOT) { self = eval(cal->c[0]); f = get(self, cal->s); }
      else if (cal->k == E_IDX) { self = eval(cal->c[0]); MVal k = eval(cal->c[1]); f = get(self, keystr(k)); }
      else f = eval(cal);
      std::vector<MVal> args;
      for (size_t i = 1; i < n->c.size(); i++) args.push_back(eval(n->c[i]));
      return call(f, self, std::move(args));
    }
    case E_OBJ: {
      MVal o = new_obj();
      for (size_t i = 0; i < n->c.size(); i++) { MVal v = eval(n->c[i]); setraw(o, n->names[i], v); }
      return o;
    }
    case E_ARRAY: {
      MVal o = new_arr();
      for (auto *c : n->c) { MVal v = eval(c); heap[o.ref].el.push_back(v); }
      return o;
    }
    case E_FUNC: { MVal v; v.t = M_FN; v.fn = n; return v; }
    case E_ASSIGN: {
      const Node *l = n->c[0];
      if (l->k == E_VAR) { if (!lookup(l->s)) throw MErr{"[" + l->s + "] is not defined"}; MVal v = eval(n->c[1]); assign(l->s, v); return v; }
      MVal o = eval(l->c[0]);
      std::string key = l->k == E_DOT ? l->s : keystr(eval(l->c[1]));
      MVal v = eval(n->c[1]);
      set(o, key, v);
      return v;
    }
    case E_INCR: {  // s: "++x", "x++", "--x", "x--"
      MVal *p = lookup(n->c[0]->s);
      if (!p) throw MErr{"not defined"};
      double old = p->n, nw = old + (n->s.find('+') != std::string::npos ? 1 : -1);
      assign(n->c[0]->s, MVal::num(nw));
      return MVal::num(n->s[0] == 'x' ? old : nw);
    }
    case E_TYPEOF: {
      MVal v = eval(n->c[0]);
      switch (v.t) {
        case M_UNDEF: return MVal::str("undefined");
        case M_NULL: return MVal::str("null");
        case M_BOOL: return MVal::str("boolean");
        case M_NUM: return MVal::str("number");
        case M_STR: return MVal::str("string");
        case M_OBJ: return MVal::str("object");
        case M_ARR: return MVal::str("array");
        case M_FN: return MVal::str("function");
        case M_HOST: case M_PTR: return MVal::str("foreign_ptr");
        case M_FFI: throw MErr{"typeof ffi"};
      }
      return MVal();
    }
    default: throw MErr{"not an expression"};
  }
}
Model::Flow Model::exec(const Node *n) {
  if (fuel-- == 0) throw MFuel();
  auto push = [&] { scopes.emplace_back(); scope_obj.push_back(-1); };
  auto pop_to = [&](size_t k) { scopes.resize(k); scope_obj.resize(k); };
  switch (n->k) {
    case S_LET: {
      define(n->s);
      if (!n->c.empty()) { MVal v = eval(n->c[0]); assign(n->s, v); }
      return NEXT;
    }
    case S_ASSIGN: {
      const Node *l = n->c[0];
      if (l->k == E_VAR) { if (!lookup(l->s)) throw MErr{"[" + l->s + "] is not defined"}; MVal v = eval(n->c[1]); assign(l->s, v); return NEXT; }
      MVal o = eval(l->c[0]);
      std::string key = l->k == E_DOT ? l->s : "";
      if (l->k == E_IDX) key = keystr(eval(l->c[1]));
      MVal v = eval(n->c[1]);
      set(o, key, v);
      return NEXT;
    }
    case S_OPASSIGN: {  // the right side never has effects of its own
      const Node *l = n->c[0];
      std::string op = n->s;
      auto apply = [&](const MVal &a, const MVal &b) {
        if (a.t == M_STR && b.t == M_STR && op == "+") return MVal::str(a.s + b.s);
        if (a.t != M_NUM || b.t != M_NUM) throw MErr{"implicit type conversion is prohibited"};
        return MVal::num(op == "+" ? a.n + b.n : op == "-" ? a.n - b.n : a.n * b.n);
      };
      if (l->k == E_VAR) {
        MVal v = eval(n->c[1]);
        MVal *p = lookup(l->s);
        if (!p) throw MErr{"not defined"};
        assign(l->s, apply(*p, v));
        return NEXT;
      }
      MVal o = eval(l->c[0]);
      std::string key = l->k == E_DOT ? l->s : "";
      if (l->k == E_IDX) key = keystr(eval(l->c[1]));
      MVal v = eval(n->c[1]);
      MVal *p = heap[o.ref].find(key);  // own property only
      set(o, key, apply(p ? *p : MVal(), v));
      return NEXT;
    }
    case S_INCR: {
      const Node *l = n->c[0];
      double d = n->s == "++" ? 1 : -1;
      MVal *p = lookup(l->s);
      if (!p) throw MErr{"not defined"};
      assign(l->s, MVal::num(p->n + d));
      return NEXT;
    }
    case S_EXPR: eval(n->c[0]); return NEXT;
    case S_RAW: throw MErr{"raw statement"};
    case S_BLOCK: {
      size_t k = scopes.size();
      push();
      for (auto *c : n->c) { Flow f = exec(c); if (f != NEXT) { pop_to(k); return f; } }
      pop_to(k);
      return NEXT;
    }
    case S_IF: {
      if (truthy(eval(n->c[0]))) return exec(n->c[1]);
      if (n->c.size() > 2) return exec(n->c[2]);
      return NEXT;
    }
    case S_FOR: {  // c[0] init, c[1] cond, c[2] incr, rest body
      size_t k = scopes.size();
      push();
      exec(n->c[0]);
      size_t k2 = scopes.size();
      Flow out = NEXT;
      while (truthy(eval(n->c[1]))) {
        bool stop = false;
        for (size_t i = 3; i < n->c.size(); i++) {
          Flow f = exec(n->c[i]);
          if (f == BRK) { stop = true; break; }
          if (f == CONT) break;
          if (f == RET) { out = RET; stop = true; break; }
        }
        pop_to(k2);
        if (stop) break;
        exec(n->c[2]);
      }
      pop_to(k);
      return out;
    }
    case S_WHILE: {  // c[0] cond, rest body
      size_t k = scopes.size();
      push();
      size_t k2 = scopes.size();
      Flow out = NEXT;
      while (truthy(eval(n->c[0]))) {
        bool stop = false;
        for (size_t i = 1; i < n->c.size(); i++) {
          Flow f = exec(n->c[i]);
          if (f == BRK) { stop = true; break; }
          if (f == CONT) break;
          if (f == RET) { out = RET; stop = true; break; }
        }
        pop_to(k2);
        if (stop) break;
      }
      pop_to(k);
      return out;
    }
    case S_FORIN: {  // s var, c[0] object, rest body
      size_t k = scopes.size();
      push();
      define(n->s);
      MVal o = eval(n->c[0]);
      if (!o.is_obj()) throw MErr{"can't iterate over non-object value"};
      Iter it;
      it.ref = o.ref;
      for (auto &p : heap[o.ref].props) it.keys.insert(it.keys.begin(), p.first);
      for (size_t i = 0; i < heap[o.ref].el.size(); i++) it.keys.push_back(std::to_string(i));
      size_t k2 = scopes.size();
      Flow out = NEXT;
      struct Active { Model &m; Active(Model &m, Iter *i) : m(m) { m.iters.push_back(i); } ~Active() { m.iters.pop_back(); } } active(*this, &it);
      while (!it.keys.empty()) {
        std::string key = it.keys.back();
        it.keys.pop_back();
        assign(n->s, MVal::str(key));
        bool stop = false;
        for (size_t i = 1; i < n->c.size(); i++) {
          Flow f = exec(n->c[i]);
          if (f == BRK) { stop = true; break; }
          if (f == CONT) break;
          if (f == RET) { out = RET; stop = true; break; }
        }
        pop_to(k2);
        if (stop) break;
      }
      pop_to(k);
      return out;
    }
    case S_BREAK: return BRK;
    case S_CONTINUE: return CONT;
    case S_RETURN: retval = n->c.empty() ? MVal() : eval(n->c[0]); return RET;
    default: eval(n); return NEXT;
  }
}
void Model::run(const std::vector<Node *> &prog, MVal *last) {
  size_t k = scopes.size();
  MVal saved = cur_this;
  int d0 = depth;
  try {
    for (auto *n : prog) {
      if (last && n->k == S_EXPR) *last = eval(n->c[0]);
      else exec(n);
    }
  } catch (...) {
    scopes.resize(k); scope_obj.resize(k); cur_this = saved; depth = d0;
    throw;
  }
}

// ---------------------------------------------------------------- rendering
struct MDump {
  Model &m;
  std::map<int, int> ids;
  int left;
  std::string out;
  void go(const MVal &v) {
    if (left-- <= 0) { out += "…"; return; }
    switch (v.t) {
      case M_UNDEF: out += "undefined"; break;
      case M_NULL: out += "null"; break;
      case M_BOOL: out += v.n != 0 ? "true" : "false"; break;
      case M_NUM: out += numstr(v.n); break;
      case M_STR: out += "'" + v.s + "'"; break;
      case M_FN: out += "<fn>"; break;
      case M_HOST: case M_PTR: out += "<ptr>"; break;
      case M_FFI: out += "<ffi>"; break;
      case M_ARR: case M_OBJ: {
        auto it = ids.find(v.ref);
        if (it != ids.end()) { out += strf("#%d", it->second); break; }
        int id = (int) ids.size();
        ids[v.ref] = id;
        MObj &o = m.heap[v.ref];
        if (v.t == M_ARR) {
          out += strf("@%d[", id);
          for (auto &e : o.el) { go(e); out += ","; }
          out += "]";
        } else {
          std::vector<std::pair<std::string, MVal>> ps(o.props);
          std::sort(ps.begin(), ps.end(), [](const std::pair<std::string, MVal> &a, const std::pair<std::string, MVal> &b) { return a.first < b.first; });
          out += strf("@%d{", id);
          for (auto &p : ps) { out += p.first + ":"; go(p.second); out += ","; }
          out += "}";
        }
      }
    }
  }
};
std::string Model::dump(const MVal &v, int maxnodes) { MDump d{*this, {}, maxnodes, ""}; d.go(v); return d.out; }
std::string Model::dump_globals(const std::set<std::string> &skip, int maxnodes, const std::vector<std::pair<std::string, MVal>> *extra) {
  MDump d{*this, {}, maxnodes, ""};
  std::vector<std::pair<std::string, MVal>> ps(heap[0].props);
  std::sort(ps.begin(), ps.end(), [](const std::pair<std::string, MVal> &a, const std::pair<std::string, MVal> &b) { return a.first < b.first; });
  for (auto &p : ps) {
    if (skip.count(p.first)) continue;
    d.out += p.first + "=";
    d.go(p.second);
    d.out += "\n";
  }
  if (extra) for (auto &x : *extra) { d.out += x.first + "="; d.go(x.second); d.out += "\n"; }
  return d.out;
}
// the engine's JSON text for a value made of plain data
std::string Model::json(const MVal &v, std::vector<int> &st, bool &skip) {
  skip = false;
  auto quote = [](const std::string &s) {
    std::string r = "\"";
    for (char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c >= '\b' && c <= '\r') { r += '\\'; r += "btnvfr"[c - '\b']; }
      else if ((unsigned char) c < 32) r += strf("\\u%04x", c);
      else r += c;
    }
    return r + "\"";
  };
  switch (v.t) {
    case M_NULL: return "null";
    case M_BOOL: return v.n != 0 ? "true" : "false";
    case M_NUM: return v.n == (double) (long long) v.n ? numstr(v.n) : strf("%f", v.n);
    case M_STR: return quote(v.s);
    case M_OBJ: case M_ARR: {
      for (int x : st) if (x == v.ref) return "[Circular]";
      st.push_back(v.ref);
      std::string r;
      if (v.t == M_OBJ) {
        r = "{";
        for (auto &p : heap[v.ref].props) {
          bool sk;
          std::string x = json(p.second, st, sk);
          if (sk) continue;
          if (r.size() != 1) r += ",";
          r += "\"" + p.first + "\":" + x;
        }
        r += "}";
      } else {
        r = "[";
        auto &el = heap[v.ref].el;
        for (size_t i = 0; i < el.size(); i++) {
          bool sk;
          std::string x = json(el[i], st, sk);
          if (i) r += ",";
          r += sk ? "null" : x;
        }
        r += "]";
      }
      st.pop_back();
      return r;
    }
    default: skip = true; return "";
  }
}
namespace {
struct JP {
  Model &m;
  const std::string &s;
  size_t i = 0;
  void ws() { while (i < s.size() && strchr(" \t\r\n", s[i])) i++; }
  [[noreturn]] void bad() { throw MErr{"invalid JSON string"}; }
  std::string strv() {
    if (s[i] != '"') bad();
    i++;
    std::string r;
    while (i < s.size() && s[i] != '"') {
      if (s[i] == '\\') {
        i++;
        if (i >= s.size()) bad();
        char c = s[i++];
        r += c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c;
      } else r += s[i++];
    }
    if (i >= s.size()) bad();
    i++;
    return r;
  }
  MVal val() {
    ws();
    if (i >= s.size()) bad();
    char c = s[i];
    if (c == '{') {
      i++;
      MVal o = m.new_obj();
      ws();
      if (i < s.size() && s[i] == '}') { i++; return o; }
      for (;;) {
        ws();
        if (i >= s.size()) bad();
        std::string k = strv();
        ws();
        if (i >= s.size() || s[i] != ':') bad();
        i++;
        MVal v = val();
        m.setraw(o, k, v);
        ws();
        if (i >= s.size()) bad();
        if (s[i] == ',') { i++; continue; }
        if (s[i] == '}') { i++; return o; }
        bad();
      }
    }
    if (c == '[') {
      i++;
      MVal o = m.new_arr();
      ws();
      if (i < s.size() && s[i] == ']') { i++; return o; }
      for (;;) {
        MVal v = val();
        m.heap[o.ref].el.push_back(v);
        ws();
        if (i >= s.size()) bad();
        if (s[i] == ',') { i++; continue; }
        if (s[i] == ']') { i++; return o; }
        bad();
      }
    }
    if (c == '"') return MVal::str(strv());
    if (!s.compare(i, 4, "true")) { i += 4; return MVal::boolean(true); }
    if (!s.compare(i, 5, "false")) { i += 5; return MVal::boolean(false); }
    if (!s.compare(i, 4, "null")) { i += 4; return MVal::null(); }
    char *e;
    double d = strtod(s.c_str() + i, &e);
    if (e == s.c_str() + i) bad();
    i = (size_t) (e - s.c_str());
    return MVal::num(d);
  }
};
}  // namespace
MVal Model::parse_json(const std::string &s) { JP p{*this, s}; return p.val(); }

// ---------------------------------------------------------------- printing
static std::string q(const std::string &s) {
  std::string r = "'";
  for (char c : s) {
    if (c == '\n') r += "\\n";
    else if (c == '\'' || c == '\\') { r += '\\'; r += c; }
    else r += c;
  }
  return r + "'";
}
static std::string pad(int n) { return std::string(n, ' '); }
std::string Printer::expr(Node *n, int ind) {
  n->line = line;
  switch (n->k) {
    case E_NUM: return n->num < 0 ? strf("(0 - %g)", -n->num) : strf("%.15g", n->num);
    case E_STR: return q(n->s);
    case E_BOOL: return n->num != 0 ? "true" : "false";
    case E_NULL: return "null";
    case E_UNDEF: return "undefined";
    case E_THIS: return "this";
    case E_VAR: return n->s;
    case E_DOT: return expr(n->c[0], ind) + "." + n->s;
    case E_IDX: { std::string a = expr(n->c[0], ind); return a + "[" + expr(n->c[1], ind) + "]"; }
    case E_BIN: { std::string a = expr(n->c[0], ind); return "(" + a + " " + n->s + " " + expr(n->c[1], ind) + ")"; }
    case E_AND: { std::string a = expr(n->c[0], ind); return "(" + a + " && " + expr(n->c[1], ind) + ")"; }
    case E_OR: { std::string a = expr(n->c[0], ind); return "(" + a + " || " + expr(n->c[1], ind) + ")"; }
    case E_NOT: return "(!" + expr(n->c[0], ind) + ")";
    case E_TYPEOF: return "(typeof(" + expr(n->c[0], ind) + "))";
    case E_ASSIGN: { std::string a = expr(n->c[0], ind); return "(" + a + " = " + expr(n->c[1], ind) + ")"; }
    case E_INCR: return n->s[0] == 'x' ? "(" + n->c[0]->s + n->s.substr(1) + ")" : "(" + n->s.substr(0, 2) + n->c[0]->s + ")";
    case E_COND: { std::string a = expr(n->c[0], ind); std::string b = expr(n->c[1], ind); return "(" + a + " ? " + b + " : " + expr(n->c[2], ind) + ")"; }
    case E_CALL: {
      std::string r = expr(n->c[0], ind);
      if (n->c[0]->k == E_FUNC) r = "(" + r + ")";
      r += "(";
      for (size_t i = 1; i < n->c.size(); i++) { if (i > 1) r += ", "; r += expr(n->c[i], ind); }
      return r + ")";
    }
    case E_OBJ: {
      std::string r = "({";
      for (size_t i = 0; i < n->c.size(); i++) { if (i) r += ", "; r += n->names[i] + ": "; r += expr(n->c[i], ind); }
      return r + "})";
    }
    case E_ARRAY: {
      std::string r = "[";
      for (size_t i = 0; i < n->c.size(); i++) { if (i) r += ", "; r += expr(n->c[i], ind); }
      return r + "]";
    }
    case E_FUNC: {
      std::string r = "function(";
      for (size_t i = 0; i < n->names.size(); i++) { if (i) r += ", "; r += n->names[i]; }
      r += ") {\n";
      line++;
      std::string keep;
      keep.swap(out);
      for (auto *c : n->c) stmt(c, ind + 2);
      keep.swap(out);
      return r + keep + pad(ind) + "}";
    }
    default: return "?";
  }
}
void Printer::stmt(Node *n, int ind) {
  n->line = line;
  auto lineout = [&](const std::string &s) { out += pad(ind) + s + "\n"; line++; };
  auto body = [&](size_t from) { for (size_t i = from; i < n->c.size(); i++) stmt(n->c[i], ind + 2); };
  switch (n->k) {
    case S_LET: if (n->c.empty()) lineout("let " + n->s + ";"); else { std::string e = expr(n->c[0], ind); lineout("let " + n->s + " = " + e + ";"); } break;
    case S_ASSIGN: { std::string a = expr(n->c[0], ind); std::string b = expr(n->c[1], ind); lineout(a + " = " + b + ";"); break; }
    case S_OPASSIGN: { std::string a = expr(n->c[0], ind); std::string b = expr(n->c[1], ind); lineout(a + " " + n->s + "= " + b + ";"); break; }
    case S_INCR: lineout(n->c[0]->s + n->s + ";"); break;
    case S_EXPR: { std::string e = expr(n->c[0], ind); lineout(e + ";"); break; }
    case S_RAW: lineout(n->s); break;
    case S_BLOCK: lineout("{"); body(0); lineout("}"); break;
    case S_IF: {
      std::string e = expr(n->c[0], ind);
      lineout("if (" + e + ") {");
      for (auto *c : n->c[1]->c) stmt(c, ind + 2);
      if (n->c.size() > 2) { lineout("} else {"); for (auto *c : n->c[2]->c) stmt(c, ind + 2); }
      lineout("}");
      break;
    }
    case S_FOR: {
      std::string i = "let " + n->c[0]->s + " = " + expr(n->c[0]->c[0], ind);
      std::string c = expr(n->c[1], ind);
      lineout("for (" + i + "; " + c + "; " + n->c[2]->c[0]->s + n->c[2]->s + ") {");
      body(3);
      lineout("}");
      break;
    }
    case S_WHILE: { std::string e = expr(n->c[0], ind); lineout("while (" + e + ") {"); body(1); lineout("}"); break; }
    case S_FORIN: { std::string e = expr(n->c[0], ind); lineout("for (let " + n->s + " in " + e + ") {"); body(1); lineout("}"); break; }
    case S_BREAK: lineout("break;"); break;
    case S_CONTINUE: lineout("continue;"); break;
    case S_RETURN: if (n->c.empty()) lineout("return;"); else { std::string e = expr(n->c[0], ind); lineout("return " + e + ";"); } break;
    default: { std::string e = expr(n, ind); lineout(e + ";"); }
  }
}
std::string Printer::prog(const std::vector<Node *> &p) { out.clear(); line = 1; for (auto *n : p) stmt(n, 0); return out; }
std::string print_program(const std::vector<Node *> &p) { Printer pr; return pr.prog(p); }
