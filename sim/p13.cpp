// P13: JSON conversion survives faults and collections without side effects.
#include "common.h"

static void plan13(Rng &r, Plan &p) {
  p.cfg["fail"] = (int64_t) r.below(5);
  p.cfg["gc"] = (int64_t) r.below(3);
  p.cfg["mv"] = (int64_t) r.below(2);
  p.cfg["fill"] = r.pick(std::vector<int64_t>{0xA5, 0, 0x31, 0xff});
  static const char *K[] = {"parse", "parse", "parse", "str", "str", "str", "bad", "bad", "round", "nth", "nth", "leak", "script", "gc"};
  int n = (int) r.range(3, 22);
  for (int i = 0; i < n; i++) p.add(K[r.below(14)], {(int64_t) r.below(1u << 30), (int64_t) r.below(4), (int64_t) r.below(24), r.range(1, 30)});
}
namespace {
const std::vector<std::string> KEYS = {"a", "b", "key", "longer_key_name", "", "0", "1", "a.", ".", "x.y", "[0]", "length", "__proto", "k1", "k2", "k3", "k4", "k5"};
std::string rstr(Rng &r) {
  static const std::vector<std::string> P = {"", "x", "text", "five5", "sixsix", "a string that is long enough to be stored", "quote\"d", "back\\slash", "tab\tnl\ncr\r", "\x01\x1f", "caf\xc3\xa9", "[Circular]", "null", "12", "{}", std::string("nu\0l", 4), "\v\f\b"};
  std::string s = r.pick(P);
  if (r.chance(0.2)) s += r.pick(P) + r.pick(P);
  if (r.chance(0.03)) s += std::string(r.range(100, 3000), 'z');
  return s;
}
std::string rkey(Rng &r) {
  if (r.chance(0.03)) return std::string((size_t) r.range(200, 400), (char) r.range('a', 'z')) + (r.chance(0.3) ? "." : "");
  return r.pick(KEYS);
}
double rnum(Rng &r) { return r.chance(0.3) ? (double) r.range(-1000000, 1000000) / 4 : r.chance(0.2) ? (double) r.range(0, 1ll << 40) : (double) r.range(-20, 200); }
// a value in both worlds; the engine's is built by the host
struct Build {
  Engine &e;
  Model &m;
  Rng &r;
  int left;
  std::vector<std::pair<MVal, int>> all;   // containers made so far and their place in the engine's list
  mjs_val_t list;
  bool plain;                              // only what JSON text can say
  bool cyc;
  mjs_val_t at(int i) { return mjs_array_get(e.m, list, (unsigned long) i); }
  void put(const MVal &o, mjs_val_t eo, const std::string &k, const MVal &v, mjs_val_t ev) {
    if (m.heap[o.ref].arr) { m.heap[o.ref].el.push_back(v); mjs_array_push(e.m, eo, ev); }
    else { m.setraw(o, k, v); mjs_set(e.m, eo, k.c_str(), k.size(), ev); }
  }
  // adds a random child to the container; the new child is deep if allowed
  void child(const MVal &o, mjs_val_t eo, int depth) {
    std::string k = rkey(r);
    uint64_t w = r.below(plain ? 75 : 100);
    if (w < 15) { double d = rnum(r); put(o, eo, k, MVal::num(d), mjs_mk_number(e.m, d)); }
    else if (w < 33) { std::string s = rstr(r); mjs_val_t v = mkstr(e.m, s); put(o, eo, k, MVal::str(s), v); }
    else if (w < 38) { bool b = r.chance(0.5); put(o, eo, k, MVal::boolean(b), mjs_mk_boolean(e.m, b)); }
    else if (w < 42) put(o, eo, k, MVal::null(), mjs_mk_null());
    else if (w < 75) { if (depth > 0 && left > 0) { int i = make(depth - 1); put(o, eo, k, all[(size_t) i].first, at(i)); } }
    else if (w < 79) put(o, eo, k, MVal(), mjs_mk_undefined());
    else if (w < 83) put(o, eo, k, MVal::host("emit"), e.global("emit"));
    else if (w < 92 || !cyc) {  // share a finished container (its index is above this one's, or it is elsewhere): may close a cycle only if allowed
      if (!done.empty()) { int i = r.pick(done); put(o, eo, k, all[(size_t) i].first, at(i)); }
    } else { int i = (int) r.below(all.size()); put(o, eo, k, all[(size_t) i].first, at(i)); }
  }
  std::vector<int> done;
  int make(int depth) {
    left--;
    bool arr = r.chance(0.45);
    MVal o = arr ? m.new_arr() : m.new_obj();
    mjs_val_t eo = arr ? mjs_mk_array(e.m) : mjs_mk_object(e.m);
    int idx = (int) all.size();
    mjs_array_push(e.m, list, eo);
    all.push_back({o, idx});
    int n = (int) r.below(6);
    for (int i = 0; i < n; i++) child(o, eo, depth);
    done.push_back(idx);
    return idx;
  }
};
// JSON text of a tree, with free choice of spaces, number forms and escapes
struct Text {
  Model &m;
  Rng &r;
  std::string out;
  void ws() { while (r.chance(0.1)) out += r.pick(std::vector<std::string>{" ", "\n", "\t", "  ", "\r"}); }
  void str(const std::string &s) {
    out += '"';
    for (char c : s) {
      unsigned char u = (unsigned char) c;
      if (c == '"' || c == '\\') { out += '\\'; out += c; }
      else if (c == '\n') out += "\\n";
      else if (c == '\t') out += "\\t";
      else if (c == '\r') out += "\\r";
      else if (c == '\b') out += "\\b";
      else if (c == '\f') out += "\\f";
      else if (u < 32) out += strf("\\u%04x", u);
      else if (c == '/' && r.chance(0.5)) out += "\\/";
      else if (u < 127 && r.chance(0.02)) out += strf("\\u%04x", u);
      else out += c;
    }
    out += '"';
  }
  void go(const MVal &v) {
    ws();
    switch (v.t) {
      case M_NUM: {
        std::string t = v.n == (long long) v.n ? strf("%lld", (long long) v.n) : strf("%.2f", v.n);
        if (r.chance(0.1) && v.n == (long long) v.n) t += r.pick(std::vector<std::string>{".0", ".00", "e0", "E+0", "e-0"});
        out += t;
        break;
      }
      case M_STR: str(v.s); break;
      case M_BOOL: out += v.n != 0 ? "true" : "false"; break;
      case M_ARR: {
        out += '[';
        auto el = m.heap[v.ref].el;
        for (size_t i = 0; i < el.size(); i++) { if (i) out += ','; go(el[i]); }
        out += ']';
        break;
      }
      case M_OBJ: {
        out += '{';
        auto ps = m.heap[v.ref].props;
        bool first = true;
        for (auto &x : ps) {
          if (!first) out += ',';
          first = false;
          ws();
          bool id = !x.first.empty() && x.first.find_first_not_of("abcdefghijklmnopqrstuvwxyz") == std::string::npos;
          if (id && r.chance(0.1)) out += x.first;   // the parser takes bare keys
          else if (r.chance(0.1)) { out += '"' + x.first + "\":\"overridden\","; out += '"' + x.first + '"'; }
          else out += '"' + x.first + '"';
          ws();
          out += ':';
          go(x.second);
        }
        out += '}';
        break;
      }
      default: out += "null";
    }
    ws();
  }
};
struct Conv {
  bool parse;
  std::string text;    // parse: the input
  mjs_val_t val;       // stringify: the input, owned by the caller
};
struct Out { mjs_err_t err; std::string res; };
struct Ctx {
  Engine &e;
  Model &m;
  mjs_val_t arg, res;   // registered
  bool faults = false;
};
Ctx *C;
// what any fresh engine does with this text
Out fresh_parse(const std::string &text) {
  bool a = S.armed, f = alloc_faults;
  S.armed = alloc_faults = false;
  struct mjs *m = mjs_create();
  mjs_val_t J = mjs_get(m, mjs_get_global(m), "JSON", ~0), fn = mjs_get(m, J, "parse", ~0), r = mjs_mk_undefined();
  mjs_val_t arg = mjs_mk_string(m, text.data(), text.size(), 1);
  Out o;
  o.err = mjs_apply(m, &r, fn, mjs_mk_undefined(), 1, &arg);
  o.res = o.err ? mjs_strerror(m, o.err) : val_render(m, r, 4000);
  mjs_destroy(m);
  S.armed = a;
  alloc_faults = f;
  return o;
}
// Runs the conversion of C->arg into C->res; allocations fail only inside the engine's conversion.
mjs_err_t convert(struct mjs *m, bool parse, mjs_val_t arg, mjs_val_t *res) {
  mjs_val_t J = mjs_get(m, mjs_get_global(m), "JSON", ~0), fn = mjs_get(m, J, parse ? "parse" : "stringify", ~0);
  alloc_mark();
  alloc_faults = C->faults;
  mjs_err_t err = mjs_apply(m, res, fn, mjs_mk_undefined(), 1, &arg);
  alloc_faults = false;
  return err;
}
// host function: converts, reports failures to the script or swallows them
void h_conv(struct mjs *m) {
  Engine *e = eng_of(m);
  bool parse = mjs_get_bool(m, mjs_arg(m, 0)), swallow = mjs_get_bool(m, mjs_arg(m, 2));
  e->maybe_host_gc();
  mjs_val_t r = mjs_mk_undefined();
  mjs_err_t err = convert(m, parse, mjs_arg(m, 1), &r);
  if (err != MJS_OK && swallow) {
    mjs_set_errorf(m, MJS_OK, NULL);
    r = mjs_mk_null();
    S.probe("failed_conversion_swallowed");
  }
  mjs_own(m, &r);
  e->maybe_host_gc();
  mjs_disown(m, &r);
  mjs_return(m, r);
}
mjs_err_t via(int way, bool parse, mjs_val_t *res) {
  Engine &e = C->e;
  const char *fn = parse ? "JSON.parse" : "JSON.stringify";
  switch (way) {
    case 0: return mjs_set(e.m, mjs_get_global(e.m), "cv_x", ~0, C->arg), e.exec(strf("%s(cv_x);", fn), res);
    case 1: return convert(e.m, parse, C->arg, res);
    case 2: return mjs_set(e.m, mjs_get_global(e.m), "cv_x", ~0, C->arg), e.exec(strf("let cv_o = {f: function(x) { let pad = 'some ' + 'thing'; return conv(%s, x, false); }}; cv_o.f(cv_x);", parse ? "true" : "false"), res);
    default: return mjs_set(e.m, mjs_get_global(e.m), "cv_x", ~0, C->arg), e.exec(strf("%s.apply(null, [cv_x]);", fn), res);
  }
}
size_t quiet_blocks(Engine &e) {
  bool a = S.armed;
  S.armed = false;
  C->res = C->arg = mjs_mk_undefined();
  mjs_set(e.m, mjs_get_global(e.m), "cv_x", ~0, mjs_mk_undefined());   // scripts would add compiled code
  mjs_gc(e.m, 1);
  mjs_gc(e.m, 1);
  S.armed = a;
  return (size_t) alloc_stat().live;
}
}  // namespace

static void run13(const Plan &p) {
  A.fill = (int) p.get("fill");
  A.move = p.get("mv") ? 1.0 : 0.4;
  Engine e;
  Model m;
  S.armed = false;
  Ctx ctx{e, m, mjs_mk_undefined(), mjs_mk_undefined()};
  C = &ctx;
  e.create();
  mjs_set(e.m, mjs_get_global(e.m), "conv", ~0, mjs_mk_foreign_func(e.m, (mjs_func_ptr_t) h_conv));
  if (e.exec("let keepme = 'a string that stays in the store of strings'; let cv_x = 0, cv_o = 0;") != MJS_OK) S.fail("prelude", "prelude failed");
  {  // the engine's own stacks come into being
    mjs_val_t t = mkstr(e.m, "[1]"), r = mjs_mk_undefined(), J = e.global("JSON");
    if (mjs_apply(e.m, &r, mjs_get(e.m, J, "parse", ~0), mjs_mk_undefined(), 1, &t) != MJS_OK || e.exec("let cv_w = function(a, b) { return conv(true, '[2]', false); }; for (let k in {a: 1}) { cv_w(cv_w(1), cv_w.apply(null, [1, [2]])); }") != MJS_OK) S.fail("prelude", "prelude failed: %s", e.errtext().c_str());
  }
  static const double F[] = {0, 0.01, 0.05, 0.2, 0.5}, GC[] = {0, 0.05, 0.4};
  double frate = F[p.get("fail")];
  S.rate[F_ALLOC] = frate;
  S.rate[F_GC] = GC[p.get("gc")];
  S.rate[F_GC_HOST] = S.rate[F_GC_HOSTFULL] = p.get("gc") ? 0.2 : 0;
  S.armed = true;
  mjs_val_t eroot = mjs_mk_undefined(), list = mjs_mk_undefined(), kept = mjs_mk_array(e.m);
  mjs_own(e.m, &ctx.arg);
  mjs_own(e.m, &ctx.res);
  mjs_own(e.m, &list);
  mjs_own(e.m, &eroot);
  mjs_own(e.m, &kept);
  std::vector<std::string> kept_dump;
  int nkept = 0;
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    Rng r((uint64_t) op.a[0]);
    int way = (int) op.a[1];
    const std::string &nm = op.name;
    S.log("%s", nm.c_str());
    if (nm == "gc") { mjs_gc(e.m, 1); continue; }
    // the value
    bool parse = nm == "parse" || nm == "bad" ? true : nm == "str" || nm == "round" ? false : r.chance(0.5);
    bool bad = nm == "bad";
    list = mjs_mk_array(e.m);
    size_t heap0 = m.heap.size();
    Build b{e, m, r, (int) op.a[3], {}, list, parse || nm == "round", r.chance(0.5), {}};
    MVal root;
    eroot = mjs_mk_undefined();
    if (r.chance(0.1)) {   // not a container
      std::string s = rstr(r);
      double d = rnum(r);
      uint64_t w = r.below(6);
      root = w < 2 ? MVal::str(s) : w < 4 ? MVal::num(d) : w == 4 ? MVal::boolean(true) : MVal::null();
      eroot = w < 2 ? mkstr(e.m, s) : w < 4 ? mjs_mk_number(e.m, d) : w == 4 ? mjs_mk_boolean(e.m, 1) : mjs_mk_null();
      mjs_array_push(e.m, list, eroot);
    } else {
      int i = b.make((int) r.range(0, 6));
      if (r.chance(0.04)) {   // a deep chain
        int n = (int) r.range(20, 150);
        MVal top = b.all[(size_t) i].first;
        mjs_val_t etop = b.at(i);
        for (int k = 0; k < n; k++) {
          bool arr = r.chance(0.5);
          MVal o = arr ? m.new_arr() : m.new_obj();
          mjs_val_t eo = arr ? mjs_mk_array(e.m) : mjs_mk_object(e.m);
          mjs_array_push(e.m, list, eo);
          if (r.chance(0.3)) b.put(o, eo, "n", MVal::num(k), mjs_mk_number(e.m, k));
          b.put(o, eo, "inner", top, etop);
          if (r.chance(0.3)) b.put(o, eo, "z", MVal::num(k), mjs_mk_number(e.m, k));
          top = o;
          etop = eo;
        }
        root = top;
        eroot = etop;
      } else { root = b.all[(size_t) i].first; eroot = b.at(i); }
    }
    // shared parts can make the text exponentially long
    std::vector<int> st;
    bool sk = false;
    size_t budget = 20000;
    std::function<void(const MVal &, std::vector<int> &)> size = [&](const MVal &v, std::vector<int> &path) {
      if (!budget || !v.is_obj()) return;
      for (int x : path) if (x == v.ref) return;
      budget--;
      path.push_back(v.ref);
      for (auto &x : m.heap[v.ref].props) size(x.second, path);
      for (auto &x : m.heap[v.ref].el) size(x, path);
      path.pop_back();
    };
    size(root, st);
    if (!budget) { m.heap.resize(heap0); continue; }
    // the expected result
    std::string text, want;
    bool want_err = false;
    std::string want_msg;
    st.clear();
    if (parse) {
      Text t{m, r, ""};
      t.go(root);
      text = t.out;
      size_t i = 0;
      while (i < text.size() && strchr(" \t\r\n", text[i])) i++;
      want = m.dump(root, 4000);
      if (bad) {
        uint64_t w = r.below(5);
        if (w < 2 && !text.empty()) text.resize(r.below(text.size()));
        else if (w == 2) { int k = (int) r.range(1, 3); while (k-- && !text.empty()) text[r.below(text.size())] = "\"\\{}[],:x0-u\x01 "[r.below(14)]; }
        else if (w == 3 && !text.empty()) text.insert(r.below(text.size()), r.pick(std::vector<std::string>{"\\", "\"", "\\q", "\\u12", "\\u1234", ",", "]", "}", "[", "{", "nul", std::string(1, '\0')}));
        else text = r.pick(std::vector<std::string>{"", " ", "\"", "\"\\", "[[[[", "{\"a\":{\"b\":[1,{\"c\":", "{\"a\":[\"ok long string\",\"\\u2028\"]}", "[1,\"abcdefghij\\x\",{\"a\":2}]", "nope", "-", "1e", "{1:2}", "{\"a\" 1}"});
        Out o = fresh_parse(text);
        want_err = o.err != MJS_OK;
        if (want_err) want_msg = o.res; else want = o.res;
        S.probe(want_err ? "malformed_text_rejected" : "malformed_text_accepted");
      } else if (r.chance(0.2)) {
        Out o = fresh_parse(text);
        if (o.err != MJS_OK || o.res != want) S.fail("wrong-value", "a fresh engine's JSON.parse gives %s | %s", o.err ? o.res.c_str() : first_diff(o.res, want).c_str(), esc(text, 1500).c_str());
      }
    } else want = m.dump(MVal::str(m.json(root, st, sk)), 4000);
    auto arm = [&] { ctx.arg = parse ? mkstr(e.m, text) : eroot; };
    auto input = [&] { return parse ? esc(text, 1500) : esc(m.json(root, st, sk), 1500); };
    auto check = [&](mjs_err_t err, uint64_t f0, const char *what) {
      bool oom = alloc_stat().failed != f0;
      if (err == MJS_OK) {
        if (want_err) S.fail("missed-error", "%s: succeeded with %s, a fresh engine reports %s | %s", what, esc(e.dump(ctx.res, 400), 400).c_str(), want_msg.c_str(), input().c_str());
        std::string got = e.dump(ctx.res, 4000);
        if (got != want) S.fail(oom ? "partial-value" : "wrong-value", "%s: %s%s | %s", what, first_diff(got, want).c_str(), oom ? " after an allocation failed" : "", input().c_str());
        if (oom) S.probe("failed_allocation_tolerated");
      } else if (!want_err && !oom) S.fail("spurious-error", "%s: %s | %s", what, e.errtext().c_str(), input().c_str());
      else if (want_err && !oom && e.errtext() != want_msg) S.fail("wrong-error", "%s: error %s, a fresh engine reports %s | %s", what, esc(e.errtext()).c_str(), want_msg.c_str(), input().c_str());
      if (oom && err != MJS_OK) S.probe("out_of_memory_reported");
    };
    auto go = [&](int w, bool faults, const char *what) {
      arm();
      ctx.res = mjs_mk_undefined();
      ctx.faults = faults;
      uint64_t f0 = alloc_stat().failed;
      mjs_err_t err = via(w, parse, &ctx.res);
      alloc_faults = false;
      S.log("%s %s err=%d", what, parse ? "parse" : "stringify", err);
      check(err, f0, what);
      S.state(fnvs(text, err));
      return err;
    };
    if (nm == "leak" || nm == "nth") {
      // the same conversion again and again, its k-th allocation failing
      size_t k = (size_t) op.a[2];
      int n = nm == "leak" ? 10 : 1;
      size_t base = 0;
      for (int i = 0; i < n; i++) {
        S.rate[F_ALLOC] = 0;
        alloc_nth = (int64_t) k;
        go(1, true, "conversion with one failing allocation");
        alloc_nth = -1;
        if (nm == "leak") {
          list = mjs_mk_undefined();
          size_t now = quiet_blocks(e);
          if (i == 2) base = now;
          if (i == n - 1 && now >= base + (size_t) (n - 3)) S.fail("leak", "the same failing conversion done %d times: %zu blocks more than before | %s", n - 3, now - base, input().c_str());
        }
      }
      go(way, false, "retry after a failure");
      S.rate[F_ALLOC] = frate;
    } else if (nm == "script") {
      // several conversions in one script, failed ones swallowed
      arm();
      mjs_set(e.m, mjs_get_global(e.m), "cv_x", ~0, ctx.arg);
      ctx.faults = true;
      uint64_t f0 = alloc_stat().failed;
      std::string F = parse ? "JSON.parse" : "JSON.stringify", P = parse ? "true" : "false";
      std::string src = "let cv_a = conv(" + P + ", cv_x, true); let cv_b = " + F + "(cv_x); let cv_c = conv(" + P + ", cv_x, true); let cv_l = JSON.stringify({a: [1, {b: 'x'}]}); [cv_a, cv_b, cv_c, cv_l];";
      mjs_err_t err = e.exec(src, &ctx.res);
      alloc_faults = false;
      bool oom = alloc_stat().failed != f0;
      if (err != MJS_OK) S.fail("spurious-error", "conversions after a swallowed failure: %s | %s", e.errtext().c_str(), input().c_str());
      for (int i = 0; i < 3; i++) {
        mjs_val_t v = mjs_array_get(e.m, ctx.res, (unsigned long) i);
        std::string got = e.dump(v, 4000);
        if (got == want || (i != 1 && oom && got == "null")) continue;
        S.fail(oom ? "partial-value" : "wrong-value", "conversion %d of a script: %s | %s", i + 1, first_diff(got, want).c_str(), input().c_str());
      }
      if (e.dump(mjs_array_get(e.m, ctx.res, 3)) != "'{\"a\":[1,{\"b\":\"x\"}]}'") S.fail("wrong-value", "a small conversion gave %s | after %s", e.dump(mjs_array_get(e.m, ctx.res, 3)).c_str(), input().c_str());
      S.probe("script_with_swallowed_failures");
    } else {
      mjs_err_t err = go(way, true, "conversion");
      if (err == MJS_OK && nm == "round") {
        // the text must give the value back
        size_t n;
        mjs_val_t tv = ctx.res;
        const char *s = mjs_get_string(e.m, &tv, &n);
        std::string txt(s, n);
        if (txt.find("\\v") == std::string::npos) {
          parse = true;
          text = txt;
          want = m.dump(root, 4000);
          // keys are taken as they stand, so the text must not need escapes in them: it does not
          go((int) op.a[2] & 3, true, "round trip");
        }
      } else if (err != MJS_OK && r.chance(0.5)) go((int) op.a[2] & 3, false, "retry after a failure");
      // keep some results: they must not change later
      if (nkept < 12 && !mjs_is_undefined(ctx.res) && r.chance(0.4)) {
        mjs_array_push(e.m, kept, ctx.res);
        kept_dump.push_back(e.dump(ctx.res, 4000));
        nkept++;
      }
    }
    for (int i = 0; i < nkept; i++) {
      std::string got = e.dump(mjs_array_get(e.m, kept, (unsigned long) i), 4000);
      if (got != kept_dump[(size_t) i]) S.fail("side-effect", "an earlier result changed: %s", first_diff(got, kept_dump[(size_t) i]).c_str());
    }
    m.heap.resize(heap0);
    list = mjs_mk_undefined();
    S.sh->ops_done++;
  }
  S.armed = false;
  mjs_disown(e.m, &kept);
  mjs_disown(e.m, &list);
  mjs_disown(e.m, &eroot);
  mjs_disown(e.m, &ctx.res);
  mjs_disown(e.m, &ctx.arg);
  if (e.exec("'still ' + 'usable';", &ctx.res) != MJS_OK || e.dump(ctx.res) != "'still usable'") S.fail("engine-unusable", "a simple script gave %s", e.dump(ctx.res).c_str());
  e.destroy();
  C = nullptr;
  if (alloc_stat().live) S.fail("leak", "memory left behind: %s", alloc_live_desc().c_str());
}
static Reg reg13("P13", plan13, run13);
