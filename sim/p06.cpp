// P06: error reports name the failing place.
#include "common.h"
extern "C" {
const char *mjs_get_bcode_filename_by_offset(struct mjs *, int);
int mjs_get_lineno_by_offset(struct mjs *, int);
int mjs_get_offset_by_call_frame_num(struct mjs *, int);
}

struct Site { std::string file; int lo = 0, hi = 0; };
static std::string show(const Site &s) { return s.lo == s.hi ? strf("%s:%d", s.file.c_str(), s.lo) : strf("%s:%d-%d", s.file.c_str(), s.lo, s.hi); }
// how the next link of the chain is entered
enum Manner { M_DIRECT, M_METHOD, M_APPLY, M_HCALL, M_CB, M_INLINE, M_LOAD, M_EXEC, M_WRAP, M_NS, M_FAIL };
struct Link {
  std::string fn, file;
  Manner how = M_FAIL;
  Site site, where, range;          // statement that calls the next link (or fails); where() call; lines of this link
  bool has_where = false;
  std::string arg;                  // file for M_LOAD/M_NS, text of M_WRAP
};
struct Chain { std::vector<Link> l; std::string fail, uid; bool top_stdin = false; };

// Ways to fail; $ is a number unique to the place.
static const char *FAILS[] = {
  "null.x", "undefined.y", "no_such_$", "no_such_$()", "no_such_$.x = 1", "5()", "id({a: 1})()", "id({a: 1}).b()", "die('dead $')", "f_add_(1)", "f_cat_(5, 'x')", "f_cat_('x')",
  "JSON.parse('{\"a\": [1, 2')", "JSON.parse('bad $')", "JSON.parse(5)", "JSON.parse()", "Object.create(5)", "'text $'.slice('x')", "'text'.at('x')", "[1, 2].splice('x')", "[1, 2].splice()",
  "load('missing_$.js')", "load('dir/missing_$.js', {})", "load('bad.js')", "load('bad2.js')", "ffi('int no_such_fn_$(int)')", "ffi('garbage $')", "ffi('int f_add(struct foo)')", "5[3] = 1",
  "null[1] = 2", "undefined.z$ = 1", "hfail('host fails $')", "hfail2('inner $', 'outer $')", "hcall(5, {}, 1, 2)", "hcall()", "gz_fn.apply(null, [5])", "hcall(gz_fn, {}, 1, 2)", "gz_fn(1)", "f_each_(1, gz_fn, null)",
  "gz_obj.meth(1)", "gz_obj.meth.apply(gz_obj, [3])", "'a'.indexOf(1)", "[].push.apply(5, [1])", "mkstr(1, 2)", "hexec('no_such_$;')", "hexec('let x = ;')", "hwrap(gz_fn, 'wrapped $')", "'text' + {a: 1}",
  "f_each_(1, 5, null)", "ffi(5)", "id({a: null}).a.b", "[null][0].x", "JSON.stringify(gz_obj).a.b.c", "id(function(a) { return a.b.c; })({})", "id(function(a) { return gz_fn(a); })({})",
  "id(function(a) { if (1 < 2) { break; } })(1)", "id(function(a) { if (1 < 2) { continue; } })(1)", "id(function(a) { while (true) { break; } continue; })(1)", "load('ret.js')", "load('brk.js')", "load('cont.js', {})", "hexec('return 5;')",
  "f_each_(1, function(a, b) { for (let i = 0; i < 2; i++) { continue; } break; }, null)", "hcall(function(a) { break; }, {}, 1, 2)", "gz_brk.apply(null, [])",
};
enum { NFAIL = sizeof(FAILS) / sizeof(FAILS[0]) };
// gz_fn fails at this place (the prelude is a file of its own)
static const char *PRE06 =
  "let f_add_ = ffi('int f_add(int, int)');\nlet f_mul_ = ffi('double f_mul(double, double)');\nlet f_cat_ = ffi('char *f_cat(char *, char *)');\n"
  "let f_each_ = ffi('int f_each(int, int (*)(int, userdata), userdata)');\n\n"
  "let gz_fn = function(a, b) {\n  let o = {a: a};\n  return o.a + no_such_in_prelude;\n};\n"
  "let gz_brk = function() {\n  break;\n};\nlet gz_obj = {\n  n: 1,\n  meth: function(a) {\n    return this.n.k.z;\n  }\n};\n";

static bool p6_go;
static std::vector<std::string> p6_where;
static int p6_depth;                                        // links entered and not left, by events
static std::vector<std::string> p6_here;
static void h_go(struct mjs *m) { eng_of(m)->maybe_host_gc(); mjs_return(m, mjs_mk_boolean(m, p6_go)); }
static void h_at(struct mjs *m) { p6_depth = mjs_get_int(m, mjs_arg(m, 0)); mjs_return(m, mjs_mk_number(m, 1)); }
static void h_where(struct mjs *m) {
  p6_where.clear();
  for (int i = 0; i < 200; i++) {
    int o = mjs_get_offset_by_call_frame_num(m, i);
    if (o == -1) break;
    const char *f = mjs_get_bcode_filename_by_offset(m, o);
    if (f) p6_where.push_back(strf("%s:%d", f, mjs_get_lineno_by_offset(m, o)));
  }
  p6_here.insert(p6_here.end(), p6_where.begin(), p6_where.end());
  p6_here.push_back("");
  mjs_return(m, mjs_mk_number(m, 1));
}
static void h_fail(struct mjs *m) {
  mjs_set_errorf(m, MJS_TYPE_ERROR, "%s", getstr(m, mjs_arg(m, 0)).c_str());
  mjs_return(m, mjs_mk_undefined());
}
static void h_fail2(struct mjs *m) {
  mjs_prepend_errorf(m, MJS_BAD_ARGS_ERROR, "%s", getstr(m, mjs_arg(m, 0)).c_str());
  mjs_prepend_errorf(m, MJS_BAD_ARGS_ERROR, "%s", getstr(m, mjs_arg(m, 1)).c_str());
  mjs_return(m, mjs_mk_undefined());
}
static void h_exec(struct mjs *m) {
  std::string s = getstr(m, mjs_arg(m, 0));
  mjs_val_t r = mjs_mk_undefined();
  mjs_exec(m, s.c_str(), &r);
  mjs_return(m, mjs_mk_number(m, 1));
}
static void h_wrap(struct mjs *m) {
  mjs_val_t r = mjs_mk_undefined();
  std::string w = getstr(m, mjs_arg(m, 1));
  mjs_err_t err = mjs_call(m, &r, mjs_arg(m, 0), mjs_mk_undefined(), 2, mjs_mk_number(m, 1), mjs_mk_number(m, 2));
  if (err != MJS_OK) mjs_prepend_errorf(m, err, "%s", w.c_str());
  mjs_return(m, mjs_mk_number(m, 1));
}
static void setup06(Engine &e) {
  e.create();
  struct { const char *n; void (*f)(struct mjs *); } H[] = {{"hgo", h_go}, {"at", h_at}, {"where", h_where}, {"hfail", h_fail}, {"hfail2", h_fail2}, {"hexec", h_exec}, {"hwrap", h_wrap}};
  for (auto &h : H) mjs_set(e.m, mjs_get_global(e.m), h.n, ~0, mjs_mk_foreign_func(e.m, (mjs_func_ptr_t) h.f));
  if (mjs_exec_file(e.m, "prelude.js", nullptr) != MJS_OK) S.fail("prelude", "prelude failed: %s", e.errtext().c_str());
}

// ---------------------------------------------------------------- sources with known lines
struct Text {
  std::string file, s, nl = "\n";
  int line = 1, ind = 0;
  void raw(const std::string &t) { s += t; for (char c : t) line += c == '\n'; }
  void ln(const std::string &t) { raw(std::string((size_t) ind, ' ') + t + nl); }
};
struct Maker {
  Rng &r;
  std::string uid;
  int n = 0, size = 0, big = 0;
  std::vector<std::string> swallowed;
  Maker(Rng &r, std::string uid) : r(r), uid(std::move(uid)) {}
  std::string fresh(const char *p) { return std::string(p) + uid + "_" + std::to_string(n++); }
  std::string blob() {
    size_t len = r.chance(0.6) ? r.below(12) : r.chance(0.8) ? r.below(160) : r.chance(0.9) ? r.below(900) : r.below(17000);
    std::string t;
    for (size_t i = 0; i < len; i++) t += (char) ('a' + r.below(26));
    return t;
  }
  void filler(Text &t) {
    std::string v = fresh("v");
    if (r.chance(0.004)) {  // very many lines
      if (big++ == 0) {
        if (r.chance(0.5)) { for (int64_t i = r.chance(0.7) ? r.range(126, 300) : r.range(16300, 17000); i > 0; i--) t.raw(t.nl); }
        else { for (int64_t i = r.range(2000, 9000); i > 0; i--) t.raw((i % 97 ? "0;" : "'a';") + t.nl); }
        S.probe("thousands_of_lines");
      }
    }
    switch (r.below(16)) {
      case 0: t.ln(""); break;
      case 1: t.ln("// " + blob().substr(0, 40)); break;
      case 2: t.ln("/* a comment"); t.ln("   of some lines " + v); t.ln("*/"); break;
      case 3: t.ln("let " + v + " = 'a text'; let " + v + "b = " + v + ".length; " + v + "b++;"); break;
      case 4: t.ln("let " + v + " = {"); t.ln("  a: 1,"); t.ln("  b: '" + blob() + "',"); t.ln("};"); break;
      case 5: t.ln("let " + v + " = function(x) { return x + 1; };"); break;
      case 6: t.ln("let " + v + " = function(x) {"); t.ln("  let y = x;"); t.ln("  return y + '" + blob() + "';"); t.ln("};"); break;
      case 7: t.ln("let " + v + " = 'raw"); t.raw("lines" + t.nl + "in a string';" + t.nl); break;
      case 8: t.ln("for (let i = 0; i < 2; i++) { let q = i; }"); break;
      case 9: t.ln("if (1 > 2) {"); t.ln("  let z = '" + blob() + "';"); t.ln("} else { let y = 2; }"); break;
      case 10: t.ln("let " + v + " = 1 > 2 ? '" + blob() + "' :"); t.ln("  1 < 2 && 'b';"); break;
      case 11: { t.ln("htry(function(x) { die('swallowed " + v + "'); }, {}, 1);"); swallowed.push_back("swallowed " + v); break; }
      case 12: { t.ln("htry(function(x) {"); t.ln("  let q = {a: 1};"); t.ln("  return q.a.b.c + gone_" + v + ";"); t.ln("}, {}, 1);"); swallowed.push_back("gone_" + v); break; }
      case 13: t.ln("let " + v + " = 0; while (" + v + " < 2) {"); t.ln("  " + v + " = " + v + " + 1; if (" + v + " === 9) { continue; }"); t.ln("}"); break;
      case 14: t.ln("for (let k in {a: 1, b: 2}) {"); t.ln("  let w = k + '" + blob() + "';"); t.ln("}"); break;
      default: t.ln("let " + v + " = '" + blob() + "';");
    }
  }
  void fillers(Text &t, int max) { for (int i = (int) r.below((uint64_t) max + 1); i > 0; i--) filler(t); }
};
// A site is a statement; expr is its failing or calling expression. Several shapes, on one or several lines.
static Site put_expr(Text &t, Rng &r, Maker &mk, const std::string &expr, bool fail) {
  Site s;
  s.file = t.file;
  bool fail0 = fail;
  if (fail && r.chance(0.5)) t.ln("if (hgo()) {"), t.ind += 1;
  else if (fail) fail = false, t.raw("if (hgo()) ");
  s.lo = t.line;
  std::string v = mk.fresh("r");
  bool one = t.s.size() >= 12 && t.s.compare(t.s.size() - 11, 11, "if (hgo()) ") == 0;   // the statement continues that line
  switch (r.below(one ? 4 : 13)) {
    case 0: t.ln(expr + ";"); s.hi = t.line - 1; break;
    case 1: t.ln("{ let " + v + " = " + expr + "; }"); s.hi = t.line - 1; break;
    case 2: t.ln(fail0 ? "{ return " + expr + "; }" : "{ id(1, " + expr + "); }"); s.hi = t.line - 1; break;
    case 3: t.ln("{ id(" + expr + "); }"); s.hi = t.line - 1; break;
    case 4: t.ln("let " + v + " = true && " + expr + ";"); s.hi = t.line - 1; break;
    case 5: t.ln("let " + v + " = false ? 5 : " + expr + ";"); s.hi = t.line - 1; break;
    case 6: t.ln("let " + v + " = ["); t.ln("  1,"); t.ln("  " + expr + ","); t.ln("  3"); t.ln("];"); s.hi = t.line - 1; break;
    case 7: t.ln("let " + v + " = {"); t.ln("  k: " + expr); t.ln("};"); s.hi = t.line - 1; break;
    case 8: t.ln("if (id(" + expr + ") === 77) {"); s.hi = t.line - 1; mk.filler(t); t.ln("}"); break;
    case 9: t.ln("while (id(" + expr + ") === 77) {"); s.hi = t.line - 1; mk.filler(t); t.ln("}"); break;
    case 10: t.ln("for (let " + v + " = id(" + expr + "); " + v + " === 77; " + v + "++) {"); s.hi = t.line - 1; mk.filler(t); t.ln("}"); break;
    case 11: t.ln("for (let " + v + " = 0; " + v + " < 1; id(" + expr + ")) {"); s.hi = t.line - 1; mk.filler(t); t.ln(v + "++;"); t.ln("}"); break;
    default: t.ln("let " + v + " = id("); t.ln("  " + expr); t.ln(");"); s.hi = t.line - 1;
  }
  if (fail) t.ind -= 1, t.ln("}");
  return s;
}
struct World {
  Maker mk;
  Rng &r;
  Chain &c;
  std::vector<Text> files;
  bool last = false;
  std::vector<std::string> defs;              // files to run before, in order
  World(Rng &r, const std::string &uid, Chain &c) : mk(r, uid), r(r), c(c) {}
  // the code of link k up to its end, into t
  void body(Text &t, size_t k, int depth, bool infn) {
    mk.fillers(t, 2);
    if (depth == 0) { leaf(t, k, infn); mk.fillers(t, 2); return; }
    std::string v = mk.fresh("l");
    switch (r.below(8)) {
      case 0: t.ln("{"); t.ind++; body(t, k, depth - 1, infn); t.ind--; t.ln("}"); break;
      case 1: t.ln("if (1 < 2) {"); t.ind++; body(t, k, depth - 1, infn); t.ind--; t.ln("}"); break;
      case 2: t.ln("if (1 > 2) {"); t.ind++; mk.filler(t); t.ind--; t.ln("} else {"); t.ind++; body(t, k, depth - 1, infn); t.ind--; t.ln("}"); break;
      case 3: t.ln("for (let " + v + " = 0; " + v + " < 3; " + v + "++) {"); t.ind++; mk.fillers(t, 2); t.ln("if (" + v + " === 1) {"); t.ind++; body(t, k, depth - 1, infn); t.ind--; t.ln("}"); mk.fillers(t, 2); t.ind--; t.ln("}"); break;
      case 4: t.ln("let " + v + " = 0;"); t.ln("while (" + v + " < 2) {"); t.ind++; t.ln(v + " = " + v + " + 1;"); t.ln("if (" + v + " === 1) {"); t.ind++; mk.fillers(t, 1); t.ln("continue;"); t.ind--; t.ln("}"); body(t, k, depth - 1, infn); t.ln("break;"); t.ind--; t.ln("}"); break;
      case 5: t.ln("for (let " + v + " in {a: 1, b: 2}) {"); t.ind++; t.ln("if (" + v + " === 'a') {"); t.ind++; body(t, k, depth - 1, infn); t.ind--; t.ln("}"); t.ind--; t.ln("}"); break;
      case 6: t.ln("if (1 < 2) {"); t.ind++; body(t, k, depth - 1, infn); t.ind--; t.ln("} else {"); t.ind++; mk.fillers(t, 2); t.ind--; t.ln("}"); break;
      default: t.ln("for (let " + v + " = 0;"); t.ln("     " + v + " < 1;"); t.ln("     " + v + "++) {"); t.ind++; body(t, k, depth - 1, infn); t.ind--; t.ln("}");
    }
    mk.fillers(t, 2);
  }
  void leaf(Text &t, size_t k, bool) {
    Link &l = c.l[k];
    t.ln(strf("at(%d);", (int) k));
    if (l.has_where) { l.where = put_expr(t, r, mk, "where()", false); }
    std::string nf = k + 1 < c.l.size() ? c.l[k + 1].fn : "";
    bool unreach = t.s.find("@@") != std::string::npos;
    (void) unreach;
    switch (l.how) {
      case M_DIRECT: l.site = put_expr(t, r, mk, nf + "(1, 2)", false); break;
      case M_METHOD: l.site = put_expr(t, r, mk, nf + ".m(1, 2)", false); break;
      case M_APPLY: l.site = put_expr(t, r, mk, nf + ".apply(null, [1, 2])", false); break;
      case M_HCALL: l.site = put_expr(t, r, mk, "hcall(" + nf + ", {}, 1, 2)", false); break;
      case M_CB: l.site = put_expr(t, r, mk, "f_each_(1, " + nf + ", null)", false); break;
      case M_LOAD: l.site = put_expr(t, r, mk, "load('" + l.arg + "')", false); break;
      case M_NS: l.site = put_expr(t, r, mk, "load('" + l.arg + "', {hgo: hgo, at: at, where: where})", false); break;
      case M_EXEC: l.site = put_expr(t, r, mk, "hexec('" + nf + "(1);')", false); break;
      case M_WRAP: l.site = put_expr(t, r, mk, "hwrap(" + nf + ", '" + l.arg + "')", false); break;
      case M_INLINE: {
        l.site.file = t.file;
        l.site.lo = t.line;
        t.ln("hcall(function(a, b) {");
        t.ind++;
        func(t, k + 1);
        t.ind--;
        t.ln("}, {}, 1, 2);");
        l.site.hi = t.line - 1;
        break;
      }
      case M_FAIL: l.site = put_expr(t, r, mk, c.fail, true); break;
    }
    if (!last) t.ln(strf("at(%d);", (int) k));
  }
  // a text that ends with the link's statement
  void ending(Text &t, size_t k) {
    for (int i = (int) (r.chance(0.5) ? r.below(3) : r.below(90)); i > 0; i--) mk.filler(t);
    last = true;
    leaf(t, k, false);
    last = false;
    if (r.chance(0.7)) while (t.s.size() && strchr("\r\n", t.s.back())) t.s.pop_back();
    S.probe("last_statement");
  }
  void func(Text &t, size_t k) {
    Link &l = c.l[k];
    l.range.file = l.file = t.file;
    l.range.lo = t.line - 1;
    body(t, k, (int) r.below(4), true);
    t.ln("return 1;");
    l.range.hi = t.line;
  }
  void define(Text &t, size_t k, Manner from) {
    Link &l = c.l[k];
    mk.fillers(t, 2);
    if (from == M_METHOD) {
      t.ln("let " + l.fn + " = {");
      t.ind++;
      if (r.chance(0.5)) t.ln("x: 1,");
      t.ln("m: function(a, b) {");
      func(t, k);
      t.ln("}");
      t.ind--;
      t.ln("};");
    } else {
      t.ln("let " + l.fn + " = function(a, b) {");
      func(t, k);
      t.ln("};");
    }
    mk.fillers(t, 2);
  }
  Text &file() { return files[r.below(files.size())]; }
};

// ---------------------------------------------------------------- checks
struct Report { std::string text; std::vector<std::string> trace; };
static Report report(Engine &e) {
  Report rep;
  char *buf = nullptr;
  size_t len = 0;
  FILE *fp = open_memstream(&buf, &len);
  mjs_print_error(e.m, fp, "MSG", 1);
  fclose(fp);
  std::string s(buf, len);
  free(buf);
  size_t p = 0;
  while (s.compare(p, 5, "  at ") == 0) {
    size_t q = s.find('\n', p);
    rep.trace.push_back(s.substr(p + 5, q - p - 5));
    p = q + 1;
  }
  if (s.compare(p, 5, "MSG: ") || s.back() != '\n') S.fail("report", "the printed error is '%s'", esc(s, 500).c_str());
  rep.text = s.substr(p + 5, s.size() - p - 6);
  if (rep.text != e.errtext()) S.fail("report", "the printed text is '%s', the reported one '%s'", esc(rep.text).c_str(), esc(e.errtext()).c_str());
  return rep;
}
static bool in_site(const std::string &line, const Site &s) {
  size_t c = line.rfind(':');
  int n = atoi(line.c_str() + c + 1);
  return line.substr(0, c) == s.file && n >= s.lo && n <= s.hi;
}
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : " < ") + x; return s; }
static std::string joins(const std::vector<Site> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : " < ") + show(x); return s; }
static void match(const std::vector<std::string> &got, const std::vector<Site> &want, const char *what, const std::string &ctx) {
  bool ok = got.size() == want.size();
  for (size_t i = 0; ok && i < got.size(); i++) ok = in_site(got[i], want[i]);
  if (!ok) S.fail("wrong-place", "%s: %s; expected %s | %s", what, esc(join(got), 900).c_str(), esc(joins(want), 900).c_str(), ctx.c_str());
}
// the calls active in link d, innermost first, below its own line
static void callers(const Chain &c, int d, int first, std::vector<Site> &w) {
  for (int k = d - 1; k >= first; k--) {
    if (c.l[(size_t) k].how == M_EXEC) { Site s; s.file = "<stdin>"; s.lo = s.hi = 1; w.push_back(s); }
    w.push_back(c.l[(size_t) k].site);
  }
}
// text and innermost part of the trace of the failing expression alone, in a fresh engine
static Report alone(const std::string &fail) {
  Engine f;
  bool ar = S.armed, df = disk::faults;
  S.armed = false;
  disk::faults = false;
  setup06(f);
  mjs_val_t r;
  if (f.exec(fail + ";", &r) == MJS_OK) S.fail("missed-error", "`%s` does not fail", fail.c_str());
  Report rep = report(f);
  if (rep.trace.empty() || rep.trace.back() != "<stdin>:1") S.fail("wrong-place", "`%s` alone failed at %s", fail.c_str(), join(rep.trace).c_str());
  rep.trace.pop_back();
  f.destroy();
  S.armed = ar;
  disk::faults = df;
  return rep;
}

static void plan06(Rng &r, Plan &p) {
  p.cfg["inject"] = r.chance(0.25) ? 1 : 0;
  p.cfg["gc"] = (int64_t) r.below(3);
  static const char *K[] = {"run", "run", "run", "run", "again", "again", "hostcall", "hostcall", "ok", "missing", "syntax", "noncall", "native", "gc", "syntaxfile"};
  int n = (int) r.range(1, 9);
  for (int i = 0; i < n; i++) p.add(i ? K[r.below(15)] : "run", {(int64_t) r.below(1u << 30), (int64_t) r.below(1u << 30)});
}
static void run06(const Plan &p) {
  S.armed = false;
  disk::put("prelude.js", PRE06);
  disk::put("bad.js", "let a = 1;\nlet b = {\n  c: = 5\n};\n");
  disk::put("bad2.js", "let bad2 = 1;\n\nbad2.x.y();");
  disk::put("ret.js", "let ret = 1;\nif (ret === 1) {\n  return 5;\n}");
  disk::put("brk.js", "let brk = 1;\nfor (let i = 0; i < 2; i++) {\n  break;\n}\nbreak;");
  disk::put("cont.js", "while (true) { break; }\ncontinue;");
  Engine e;
  setup06(e);
  static const double GC[] = {0, 0.02, 0.3};
  S.rate[F_GC] = GC[p.get("gc")];
  S.rate[F_GC_HOST] = 0.1;
  bool inject = p.get("inject");
  std::vector<Chain> chains;
  std::vector<std::string> tops;              // how each chain is started again: a file, or "" for its source
  std::vector<std::string> srcs;
  p6_here.clear();
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    Rng r((uint64_t) op.a[0]);
    mjs_val_t res = mjs_mk_undefined();
    p6_go = !inject && r.chance(0.85);
    p6_here.clear();
    p6_depth = 0;
    S.log("%s", op.name.c_str());
    S.armed = true;
    S.rate[F_FAIL_OP] = 0;
    mjs_err_t err;
    int first = 0, ci = -1;
    if (op.name == "run") {
      Chain c;
      c.uid = std::to_string(op.id);
      std::string id = strf("%d0%d", op.id, (int) r.below(900) + 100);
      c.fail = FAILS[r.below(NFAIL)];
      for (size_t q; (q = c.fail.find('$')) != std::string::npos;) c.fail.replace(q, 1, id);
      int D = r.chance(0.3) ? 1 : (int) r.range(1, 6);
      c.l.resize((size_t) D + 1);
      World w(r, c.uid, c);
      int nf = (int) r.range(1, 3);
      for (int i = 0; i < nf; i++) {
        Text t;
        t.file = strf("%sf%d_%d.js", r.chance(0.2) ? "some/dir:with.colon/" : "", op.id, i);
        if (r.chance(0.15)) t.nl = "\r\n";
        w.files.push_back(t);
      }
      for (int k = 0; k < D; k++) {
        Link &l = c.l[(size_t) k];
        static const Manner MS[] = {M_DIRECT, M_DIRECT, M_DIRECT, M_METHOD, M_APPLY, M_HCALL, M_CB, M_INLINE, M_LOAD, M_EXEC, M_WRAP, M_NS};
        l.how = MS[r.below(12)];
        l.has_where = r.chance(0.3);
        c.l[(size_t) k + 1].fn = strf("c%d_%d", op.id, k + 1);
        if (l.how == M_LOAD || l.how == M_NS) l.arg = strf("load%d_%d.js", op.id, k);
        if (l.how == M_WRAP) l.arg = strf("wrap %d_%d", op.id, k);
      }
      c.l[(size_t) D].has_where = r.chance(0.3);
      // write the code, callees first so that files define before use; inline links are written by their caller
      Text top;
      for (int k = D; k >= 1; k--) {
        Manner from = c.l[(size_t) k - 1].how;
        if (from == M_INLINE) continue;
        if (from == M_LOAD || from == M_NS) {
          Text t;
          t.file = c.l[(size_t) k - 1].arg;
          c.l[(size_t) k].range.file = c.l[(size_t) k].file = t.file;
          c.l[(size_t) k].range.lo = 1;
          c.l[(size_t) k].fn = "";
          if (!p.get("inject") && r.chance(0.15)) w.ending(t, (size_t) k); else w.body(t, (size_t) k, (int) r.below(3), false);
          if (r.chance(0.3)) while (t.s.size() && strchr("\r\n", t.s.back())) t.s.pop_back();
          c.l[(size_t) k].range.hi = t.line;
          disk::put(t.file, t.s);
          continue;
        }
        w.define(w.file(), (size_t) k, from);
      }
      bool as_file = r.chance(0.5);
      top.file = as_file ? strf("main%d.js", op.id) : "<stdin>";
      c.l[0].range.file = c.l[0].file = top.file;
      c.l[0].range.lo = 1;
      c.top_stdin = !as_file;
      if (as_file && r.chance(0.2)) top.nl = "\r\n";
      if (!p.get("inject") && r.chance(0.15)) w.ending(top, 0); else w.body(top, 0, (int) r.below(4), false);
      if (r.chance(0.3)) while (top.s.size() && strchr("\r\n", top.s.back())) top.s.pop_back();
      c.l[0].range.hi = top.line;
      for (auto &t : w.files) {
        if (S.verbose) printf("---- %s\n%s\n", t.file.c_str(), t.s.c_str());
        disk::put(t.file, t.s);
        if (mjs_exec_file(e.m, t.file.c_str(), nullptr) != MJS_OK) S.fail("spurious-error", "file of functions failed: %s | %s", e.errtext().c_str(), esc(t.s, 2500).c_str());
      }
      if (S.verbose) printf("---- %s\n%s\n", top.file.c_str(), top.s.c_str());
      if (S.verbose) for (auto &l : c.l) if (l.how == M_LOAD || l.how == M_NS) printf("---- %s\n%s\n", l.arg.c_str(), disk::get(l.arg).c_str());
      if (as_file) disk::put(top.file, top.s);
      srcs.push_back(top.s);
      tops.push_back(as_file ? top.file : "");
      ci = (int) chains.size();
      chains.push_back(c);
      S.probe("chain_made");
    }
    if (op.name == "run" || op.name == "again") {
      if (ci < 0) ci = (int) r.below(chains.size());
      S.armed = true;
      if (inject) S.rate[F_FAIL_OP] = 0.004;
      if (tops[(size_t) ci].empty()) err = e.exec(srcs[(size_t) ci], &res);
      else err = mjs_exec_file(e.m, tops[(size_t) ci].c_str(), &res);
    } else if (op.name == "hostcall") {
      ci = (int) r.below(chains.size());
      const Chain &c = chains[(size_t) ci];
      std::vector<int> cand;
      for (size_t k = 1; k < c.l.size(); k++) if (!c.l[k].fn.empty() && c.l[k - 1].how != M_INLINE && c.l[k - 1].how != M_METHOD) cand.push_back((int) k);
      if (cand.empty()) continue;
      p6_depth = first = cand[r.below(cand.size())];
      if (inject) S.rate[F_FAIL_OP] = 0.004;
      err = mjs_call(e.m, &res, e.global(c.l[(size_t) first].fn.c_str()), mjs_mk_undefined(), 2, mjs_mk_number(e.m, 1), mjs_mk_number(e.m, 2));
    } else {
      std::string want;
      std::vector<Site> wt;
      if (op.name == "ok") { err = e.exec("let okv = {a: [1, 2]}; okv.a[1] + 1;", &res); want = "NO_ERROR"; }
      else if (op.name == "gc") { mjs_gc(e.m, 1); continue; }
      else if (op.name == "missing") { std::string f = strf("absent_%d.js", op.id); err = mjs_exec_file(e.m, f.c_str(), nullptr); want = "failed to read file \"" + f + "\""; }
      else if (op.name == "syntax" || op.name == "syntaxfile") {
        Text t;
        t.file = "syn.js";
        Maker mk(r, strf("s%d", op.id));
        mk.fillers(t, 6);
        int line = t.line;
        static const char *BAD[] = {"let = 5;", "let x = * 2;", "foo(1, ];", "let y = {a: 1; b: 2};", "if x) { }", "for (let i = 0; i < 1, i++) { }", "let z = [1, 2;"};
        static const char *TOK[] = {"[= 5;", "[* 2;", "[];", "[; b: 2};", "[x) { }", "[, i++) { }", "[;"};
        int b = (int) r.below(7);
        t.ln(BAD[b]);
        mk.fillers(t, 3);
        if (op.name == "syntax") err = e.exec(t.s);
        else { disk::put(t.file, t.s); err = mjs_exec_file(e.m, t.file.c_str(), nullptr); }
        Report rep = report(e);
        std::string pre = strf("parse error at line %d: %s", line, std::string(TOK[b]).substr(0, 4).c_str());
        size_t n = std::min(pre.size(), strlen(TOK[b]) + pre.find('[') - 1);
        if (err == MJS_OK || rep.text.compare(0, n, pre, 0, n)) S.fail("wrong-text", "syntax error in line %d reported as '%s' | %s", line, esc(rep.text).c_str(), esc(t.s, 2000).c_str());
        if (!rep.trace.empty()) S.fail("stale-trace", "a syntax error has the trace %s", esc(join(rep.trace), 500).c_str());
        S.sh->ops_done++;
        continue;
      } else if (op.name == "noncall") { err = mjs_call(e.m, &res, mjs_mk_number(e.m, 7), mjs_mk_undefined(), 0); want = "calling non-callable"; }
      else { std::string t = strf("native %d", op.id); mjs_val_t v = mkstr(e.m, t); err = mjs_call(e.m, &res, e.global("hfail"), mjs_mk_undefined(), 1, v); want = t; }
      Report rep = report(e);
      if ((err == MJS_OK) != (want == "NO_ERROR")) S.fail("missed-error", "%s: %s", op.name.c_str(), rep.text.c_str());
      if (rep.text != want) S.fail("wrong-text", "%s reported '%s', expected '%s'", op.name.c_str(), esc(rep.text, 400).c_str(), want.c_str());
      if (!rep.trace.empty()) S.fail("stale-trace", "%s has the trace %s", op.name.c_str(), esc(join(rep.trace), 500).c_str());
      S.sh->ops_done++;
      continue;
    }
    // a chain ran
    const Chain &c = chains[(size_t) ci];
    int D = (int) c.l.size() - 1;
    bool injected = inject && err != MJS_OK;
    Report rep = report(e);
    std::string ctx = "failing expression `" + c.fail + "` source: " + esc(srcs[(size_t) ci], 1800);
    // what where() saw
    {
      size_t at = 0;
      for (int k = first; k <= D && at < p6_here.size(); k++) {
        if (!c.l[(size_t) k].has_where) continue;
        std::vector<std::string> got;
        while (at < p6_here.size() && !p6_here[at].empty()) got.push_back(p6_here[at++]);
        at++;
        std::vector<Site> want = {c.l[(size_t) k].where, c.l[(size_t) k].where};
        callers(c, k, first, want);
        match(got, want, "call frames seen by a host function", ctx);
        S.probe("frames_asked");
      }
    }
    S.log("-> %s", err ? "failed" : "ok");
    if (!injected) {
      // load() evaluates a file only if its last evaluation failed
      bool reached = p6_depth == D || err != MJS_OK;
      bool skipped = false;
      if (!reached) for (int k = first; k < D; k++) if (c.l[(size_t) k].how == M_LOAD) skipped = true;
      if (skipped) { if (!rep.trace.empty()) S.fail("stale-trace", "a successful run has a trace"); S.sh->ops_done++; continue; }
      if (p6_go != (err != MJS_OK)) {
        // a chain through load() that succeeded before is not run again
        bool anyload = false;
        for (int k = first; k < D; k++) if (c.l[(size_t) k].how == M_LOAD) anyload = true;
        if (!(anyload && err == MJS_OK)) S.fail(err ? "spurious-error" : "missed-error", "chain %s: %s | %s", err ? "failed" : "succeeded", esc(rep.text, 400).c_str(), ctx.c_str());
      }
      if (err == MJS_OK) {
        if (rep.text != "NO_ERROR" || !rep.trace.empty()) S.fail("stale-trace", "after a successful run the error is '%s' at %s", esc(rep.text, 300).c_str(), esc(join(rep.trace), 500).c_str());
      } else {
        Report a = alone(c.fail);
        std::string want = a.text;
        for (int k = D - 1; k >= first; k--) {
          const Link &l = c.l[(size_t) k];
          if (l.how == M_WRAP) want = l.arg + ": " + want;
          if (l.how == M_LOAD || l.how == M_NS) want = "failed to exec file \"" + l.arg + "\": " + want;
        }
        if (rep.text != want) S.fail("wrong-text", "reported '%s', expected '%s' | %s", esc(rep.text, 500).c_str(), esc(want, 500).c_str(), ctx.c_str());
        std::vector<Site> wt;
        for (auto &x : a.trace) {   // the failing expression's own frames, in the prelude or nested source
          size_t q = x.rfind(':');
          Site s;
          s.file = x.substr(0, q);
          s.lo = s.hi = atoi(x.c_str() + q + 1);
          // an inline function of the expression sits on the expression's line
          if (s.file == "<stdin>" && c.fail.find("function(") != std::string::npos) s = c.l[(size_t) D].site;
          wt.push_back(s);
        }
        wt.push_back(c.l[(size_t) D].site);
        callers(c, D, first, wt);
        match(rep.trace, wt, "stack trace", ctx);
        S.state(fnvs(join(rep.trace)));
        S.probe("trace_checked");
      }
    } else {
      // the failure may be anywhere in the link that was active, or in one next to it
      if (rep.text.find("simulated failure") == std::string::npos) S.fail("wrong-text", "a simulated failure was reported as '%s'", esc(rep.text, 400).c_str());
      bool ok = false;
      for (int d = std::max(first, p6_depth - 1); d <= std::min(D, p6_depth + 1) && !ok; d++) {
        std::vector<Site> rest;
        callers(c, d, first, rest);
        for (int extra = 0; extra <= 3 && !ok; extra++) {   // fillers may be one function deep
          if (rep.trace.size() != rest.size() + 1 + (size_t) extra) continue;
          ok = true;
          for (int x = 0; x <= extra; x++) ok = ok && (in_site(rep.trace[(size_t) x], c.l[(size_t) d].range) || (x < extra && (rep.trace[(size_t) x] == "<stdin>:1" || rep.trace[(size_t) x].compare(0, 11, "prelude.js:") == 0)));
          for (size_t i = 0; i < rest.size() && ok; i++) ok = in_site(rep.trace[i + 1 + (size_t) extra], rest[i]);
        }
      }
      if (!ok) S.fail("wrong-place", "stack trace of a simulated failure near link %d: %s; call sites: %s | %s", p6_depth, esc(join(rep.trace), 900).c_str(), [&] { std::vector<Site> w; callers(c, D, first, w); return joins(w); }().c_str(), ctx.c_str());
      S.probe("injected_trace_checked");
    }
    S.sh->ops_done++;
  }
  S.armed = false;
  e.destroy();
}
static Reg reg06("P06", plan06, run06);
