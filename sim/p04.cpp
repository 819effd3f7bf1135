// P04: host events reach the right script callback exactly once, with the right data.
#include <list>
#include "common.h"

// ---------------------------------------------------------------- what the host offers
enum { NCB = 5, NFOREIGN = 2, NORDER = 6 };
struct CbSig { const char *text; const char *args; char ret; bool maybe; };  // args: u i b s p m d f
static const CbSig SIGS[] = {
  {"int(*)(userdata)", "u", 'i', false},
  {"int (*)(int, userdata)", "iu", 'i', false},
  {"int(*)(userdata, int)", "ui", 'i', false},
  {"bool(*)(int, int, userdata)", "iiu", 'b', false},
  {"int(*)(char *, userdata, int)", "sui", 'i', false},
  {"void(*)(userdata, double)", "ud", 'v', false},
  {"int(*)(double, userdata)", "du", 'i', false},
  {"int (*)(bool, int, char*, void *, userdata)", "bispu", 'i', false},
  {"bool(*)(struct mg_str *, userdata, bool)", "mub", 'b', false},
  {"int(*)(void*, int, userdata, int, char*, int)", "piuisi", 'i', false},
  {"void(*)(int, int, int, int, int, userdata)", "iiiiiu", 'v', false},
  {"int(*)(userdata, char*)", "us", 'i', false},
  // these may be rejected; if accepted they have to work
  {"int(*)(userdata, double, int)", "udi", 'i', true},
  {"int(*)(double, userdata, int)", "dui", 'i', true},
  {"int(*)(userdata, int, double)", "uid", 'i', true},
  {"int(*)(int, userdata, double)", "iud", 'i', true},
  {"int(*)(userdata, float)", "uf", 'i', true},
  {"int(*)(double, double, userdata)", "ddu", 'i', true},
};
enum { NSIG = sizeof(SIGS) / sizeof(SIGS[0]) };
// how the registering function takes its parameters
static const char *ORDERS[NORDER] = {"int reg_icu(int, %s, userdata)", "void reg_cui(%s, userdata, int)", "int reg_uic(userdata, int, %s)", "void reg_iuc(int, userdata, %s)",
  "int reg_iiiciu(int, int, int, %s, int, userdata)", "void reg_cu(%s, userdata)"};
static const char *CALLS[NORDER] = {"(%d, F, U)", "(F, U, %d)", "(U, %d, F)", "(%d, U, F)", "(1, 2, %d, F, 4, U)", "(F, U)"};

struct Handle { int sig; std::string key; int func; void *fn, *ud; bool live; };
struct Expect { int func; std::string key; std::string want; int delivered; bool fails; };
struct CArg { int i = 0; double d = 0; const char *s = nullptr; void *p = nullptr; struct { const char *p; size_t len; } m = {nullptr, 0}; std::string keep; };
struct W4 {
  Engine *e;
  std::vector<Handle> hs;
  std::vector<Expect> ex;
  std::set<std::pair<int, std::string>> live;
  int pending = -1, each = 0, depth = 0, fresh = 0, nested = 0;
  double reenter = 0;
  int next_k = 0, next_r = 0;
  Rng r{1};
  bool rejected[NSIG] = {false};
  // texts that came with events and which somebody keeps
  struct Text { mjs_val_t v; std::string want; };
  std::list<Text> texts;
};
static W4 *w;
static char ptr_area[64];

static void fire(int h, bool *failed, bool top);
static void one_op(const char *name, bool nested);
extern "C" {
static void got(int id, void *fn, void *ud) {
  if (w->pending < 0) S.fail("wrong-registration", "the registering function was called twice");
  if (id >= 0 && id != w->pending) S.fail("wrong-registration", "the registering function got %d instead of %d", id, w->pending);
  w->hs[w->pending].fn = fn;
  w->hs[w->pending].ud = ud;
  int h = w->pending;
  w->pending = -1;
  // events raised while the registering call is still running
  int n = w->each;
  w->each = 0;
  for (int i = 0; i < n && w->hs[h].live; i++) { bool f = false; fire(h, &f, false); if (f) { mjs_set_errorf(w->e->m, MJS_OK, NULL); S.probe("failed_inside_registering_call"); } }
}
// imported functions used as callbacks: they record what they were called with
static int imported(const std::string &have) {
  if (w->ex.empty()) S.fail("unexpected-callback", "an imported callback ran although no event was raised");
  Expect &x = w->ex.back();
  if (x.delivered) S.fail("delivered-twice", "one event ran callback %d and then an imported one", x.func);
  if (x.func < 200) S.fail("wrong-callback", "the event of callback %d ran an imported function", x.func);
  std::string want = x.want.substr(1);
  if (have != want) S.fail("wrong-arguments", "imported callback %d (%s) got %s, expected %s", x.func, SIGS[(unsigned char) x.want[0]].text, esc(have, 700).c_str(), esc(want, 700).c_str());
  x.delivered = 1;
  w->next_r = (int) w->r.range(-3, 70000);
  if (SIGS[(unsigned char) x.want[0]].ret == 'b') w->next_r &= 1;
  w->next_k = 0;
  S.log("imported callback ran: %s", esc(have, 200).c_str());
  S.probe("imported_callback");
  return w->next_r;
}
static std::string q1(const char *s) { return s ? "'" + esc(s, 5000) + "' " : "null "; }
static int tgt_i(int a) { return imported(strf("%d ", a)); }
static int tgt_ii(int a, int b) { return imported(strf("%d %d ", a, b)); }
static bool tgt_iii(int a, int b, int c) { return imported(strf("%d %d %d ", a, b, c)) != 0; }
static int tgt_sii(const char *s, int a, int b) { return imported(q1(s) + strf("%d %d ", a, b)); }
static int tgt_is(int a, const char *s) { return imported(strf("%d ", a) + q1(s)); }
static int tgt_s(const char *s) { return imported(q1(s)); }
static int reg_icu(int id, void *c, void *u) { got(id, c, u); return 7; }
static void reg_cui(void *c, void *u, int id) { got(id, c, u); }
static int reg_uic(void *u, int id, void *c) { got(id, c, u); return 7; }
static void reg_iuc(int id, void *u, void *c) { got(id, c, u); }
static int reg_iiiciu(int a, int b, int id, void *c, int d, void *u) { if (a != 1 || b != 2 || d != 4) S.fail("wrong-registration", "other arguments arrived as %d %d %d", a, b, d); got(id, c, u); return 7; }
static void reg_cu(void *c, void *u) { got(-1, c, u); }
}
static void *sym04(const char *n) {
  std::string s = n;
  if (s == "reg_icu") return (void *) reg_icu;
  if (s == "reg_cui") return (void *) reg_cui;
  if (s == "reg_uic") return (void *) reg_uic;
  if (s == "reg_iuc") return (void *) reg_iuc;
  if (s == "reg_iiiciu") return (void *) reg_iiiciu;
  if (s == "reg_cu") return (void *) reg_cu;
  if (s == "tgt_i") return (void *) tgt_i;
  if (s == "tgt_ii") return (void *) tgt_ii;
  if (s == "tgt_iii") return (void *) tgt_iii;
  if (s == "tgt_sii") return (void *) tgt_sii;
  if (s == "tgt_is") return (void *) tgt_is;
  if (s == "tgt_s") return (void *) tgt_s;
  return nullptr;
}
static void *resolver04(void *h, const char *n) { void *p = sym04(n); return p ? p : host_dlsym(h, n); }

static std::string show(struct mjs *m, mjs_val_t v, char t) {
  switch (t) {
    case 'i': case 'd': case 'f': return mjs_is_number(v) ? strf("%.17g", mjs_get_double(m, v)) : "not-a-number:" + val_render(m, v, 20);
    case 'b': return mjs_is_boolean(v) ? (mjs_get_bool(m, v) ? "true" : "false") : "not-a-boolean:" + val_render(m, v, 20);
    case 's': case 'm': return mjs_is_string(v) ? "'" + esc(getstr(m, v), 5000) + "'" : "not-a-string:" + val_render(m, v, 20);
    case 'p': return mjs_is_foreign(v) ? strf("ptr%d", mjs_get_ptr(m, v) == nullptr ? -1 : (int) ((char *) mjs_get_ptr(m, v) - ptr_area)) : "not-a-pointer:" + val_render(m, v, 20);
  }
  return "?";
}
static std::string show_ud(struct mjs *m, mjs_val_t v) {
  for (int i = 0; i < NSLOT; i++) if (v == w->e->slot[i] && !mjs_is_undefined(v)) return strf("slot%d", i);
  if (mjs_is_object(v) && mjs_is_number(mjs_get(m, v, "id", ~0))) {
    int id = mjs_get_int(m, mjs_get(m, v, "id", ~0));
    std::string t = getstr(m, mjs_get(m, v, "txt", ~0));
    return t == strf("text of user data %d", id) ? strf("fresh%d", id) : strf("fresh%d with text '%s'", id, esc(t).c_str());
  }
  return val_render(m, v, 20);
}
// a callback runs: called by script functions (func >= 0) and host functions
static void record(struct mjs *m, int func, int base) {
  Engine *e = w->e;
  if (w->ex.empty()) S.fail("unexpected-callback", "callback %d ran although no event was raised", func);
  Expect &x = w->ex.back();
  if (x.delivered) S.fail("delivered-twice", "one event ran callback %d and then %d", x.func, func);
  if (x.func != func) S.fail("wrong-callback", "the event of callback %d ran callback %d", x.func, func);
  const CbSig &sg = SIGS[(unsigned char) x.want[0]];
  std::string want = x.want.substr(1), have;
  e->maybe_host_gc();
  for (int i = 0; i < 6; i++) {
    mjs_val_t v = mjs_arg(m, base + i);
    char t = i < (int) strlen(sg.args) ? sg.args[i] : 0;
    have += t == 0 ? (mjs_is_undefined(v) ? "" : "extra:" + val_render(m, v, 20)) : t == 'u' ? show_ud(m, v) : show(m, v, t);
    if (t) have += " ";
  }
  if (have != want) S.fail("wrong-arguments", "callback %d (%s) got %s, expected %s", func, sg.text, esc(have, 700).c_str(), esc(want, 700).c_str());
  for (int i = 0; i < (int) strlen(sg.args); i++) if ((sg.args[i] == 's' || sg.args[i] == 'm') && w->r.below(3) == 0) {
    w->texts.push_back({mjs_arg(m, base + i), getstr(m, mjs_arg(m, base + i))});
    mjs_own(m, &w->texts.back().v);
    if (w->texts.size() > 12) { mjs_disown(m, &w->texts.front().v); w->texts.pop_front(); }
    S.probe("text_of_an_event_kept");
  }
  x.delivered = 1;
  S.log("cb %d ran: %s", func, esc(have, 200).c_str());
}
// nested activity inside a callback, then what the callback should do
static void inside(struct mjs *m) {
  size_t me = w->ex.size() - 1;
  if (w->depth < 4 && w->nested < 40 && S.decide(F_REENTER, w->reenter)) {
    w->depth++;
    w->nested++;
    static const char *N[] = {"fire", "fire", "free", "reg", "gc", "garbage"};
    one_op(N[w->r.below(6)], true);
    w->depth--;
    S.probe("activity_inside_callback");
  }
  if (w->ex.size() != me + 1) S.fail("harness", "expectation stack out of step");
  int k = (int) w->r.below(12);
  mjs_val_t o = mjs_mk_object(m);
  mjs_own(m, &o);
  w->next_k = k == 0 ? 2 : k == 1 ? 1 : k == 2 ? 4 : 0;
  if (w->next_k == 2) w->ex[me].fails = true;
  w->next_r = (int) w->r.range(-3, 70000);
  mjs_set(m, o, "k", ~0, mjs_mk_number(m, w->next_k));
  mjs_set(m, o, "r", ~0, mjs_mk_number(m, w->next_r));
  mjs_set(m, o, "t", ~0, mjs_mk_boolean(m, w->next_r & 1));
  mjs_set(m, o, "b", ~0, mjs_mk_boolean(m, SIGS[(unsigned char) w->ex[me].want[0]].ret == 'b'));
  w->e->maybe_host_gc();
  mjs_disown(m, &o);
  mjs_return(m, o);
}
static void h_rec(struct mjs *m) {
  record(m, mjs_get_int(m, mjs_arg(m, 0)), 1);
  inside(m);
}
static void h_freed(struct mjs *m) {  // the callback freed itself
  Expect &x = w->ex.back();
  bool was = w->live.erase({x.func, x.key}) != 0;
  int rep = mjs_get_int(m, mjs_arg(m, 0));
  if (rep != (was ? 1 : 0)) S.fail("wrong-free", "freeing a %s registration from inside its callback returned %d", was ? "live" : "dead", rep);
  for (auto &h : w->hs) if (h.func == x.func && h.key == x.key) h.live = false;
  S.log("freed itself");
  S.probe("freed_inside_own_callback");
  mjs_return(m, mjs_mk_undefined());
}
static void foreign_cb(struct mjs *m, int k) {
  record(m, 100 + k, 0);
  w->next_r = (int) w->r.range(-3, 70000);
  if (w->r.below(8) == 0) { w->ex.back().fails = true; mjs_set_errorf(m, MJS_INTERNAL_ERROR, "host callback fails"); }
  mjs_return(m, SIGS[(unsigned char) w->ex.back().want[0]].ret == 'b' ? mjs_mk_boolean(m, w->next_r & 1) : mjs_mk_number(m, w->next_r));
  w->next_k = 0;
}
static void h_fcb0(struct mjs *m) { foreign_cb(m, 0); }
static void h_fcb1(struct mjs *m) { foreign_cb(m, 1); }
// a script asks the host to raise an event
static void h_fire(struct mjs *m) {
  bool failed = false;
  int h = mjs_get_int(m, mjs_arg(m, 0));
  fire(h, &failed, false);
  mjs_return(m, mjs_mk_number(m, failed ? 0 : w->next_r));
}

static void fire(int hi, bool *failed, bool top) {
  Handle h = w->hs[hi];
  const CbSig &sg = SIGS[h.sig];
  Expect x{h.func, h.key, std::string(1, (char) h.sig), 0, false};
  CArg a[6];
  static const int IV[] = {0, 1, -1, -2147483647 - 1, 2147483647, -77, 65536, 255};
  static const double DV[] = {0.5, -1.25, 1e300, 0, 123456789.125, -3};
  static const char *SV[] = {"", "abc", "a string argument that is long enough to live in the buffer", "\xff\x80 high", "five5", "sixsix"};
  int n = (int) strlen(sg.args);
  for (int i = 0; i < n; i++) {
    switch (sg.args[i]) {
      case 'u': x.want += h.key; break;
      case 'i': a[i].i = IV[w->r.below(8)]; x.want += strf("%d", a[i].i); break;
      case 'b': a[i].i = (int) w->r.below(2); x.want += a[i].i ? "true" : "false"; break;
      case 'd': a[i].d = DV[w->r.below(6)]; x.want += strf("%.17g", a[i].d); break;
      case 'f': a[i].d = 0.25 * (double) w->r.below(9); x.want += strf("%.17g", a[i].d); break;
      case 's': if (w->r.below(7) == 0) { a[i].s = nullptr; x.want += "''"; } else { a[i].keep = SV[w->r.below(6)]; a[i].s = a[i].keep.data(); x.want += "'" + esc(a[i].s, 5000) + "'"; } break;
      case 'm': a[i].keep = w->r.below(2) ? std::string("bytes\0with zero and more", 24) : std::string(w->r.below(30), 'm'); a[i].m.p = a[i].keep.data(); a[i].m.len = a[i].keep.size(); x.want += "'" + esc(a[i].keep, 5000) + "'"; break;
      case 'p': { int q = (int) w->r.below(5) - 1; a[i].p = q < 0 ? nullptr : ptr_area + q; x.want += strf("ptr%d", q); break; }
    }
    x.want += " ";
  }
  w->ex.push_back(x);
  size_t me = w->ex.size() - 1;
  long ret = 0;
  void *u = h.ud, *f = h.fn;
  typedef int I; typedef double D; typedef void *P; typedef const char *C; typedef bool B; typedef float F;
  switch (h.sig) {
    case 0: ret = ((I (*)(P)) f)(u); break;
    case 1: ret = ((I (*)(I, P)) f)(a[0].i, u); break;
    case 2: ret = ((I (*)(P, I)) f)(u, a[1].i); break;
    case 3: ret = ((B (*)(I, I, P)) f)(a[0].i, a[1].i, u); break;
    case 4: ret = ((I (*)(C, P, I)) f)(a[0].s, u, a[2].i); break;
    case 5: ((void (*)(P, D)) f)(u, a[1].d); break;
    case 6: ret = ((I (*)(D, P)) f)(a[0].d, u); break;
    case 7: ret = ((I (*)(B, I, C, P, P)) f)(a[0].i, a[1].i, a[2].s, a[3].p, u); break;
    case 8: ret = ((B (*)(P, P, B)) f)(&a[0].m, u, a[2].i); break;
    case 9: ret = ((I (*)(P, I, P, I, C, I)) f)(a[0].p, a[1].i, u, a[3].i, a[4].s, a[5].i); break;
    case 10: ((void (*)(I, I, I, I, I, P)) f)(a[0].i, a[1].i, a[2].i, a[3].i, a[4].i, u); break;
    case 11: ret = ((I (*)(P, C)) f)(u, a[1].s); break;
    case 12: ret = ((I (*)(P, D, I)) f)(u, a[1].d, a[2].i); break;
    case 13: ret = ((I (*)(D, P, I)) f)(a[0].d, u, a[2].i); break;
    case 14: ret = ((I (*)(P, I, D)) f)(u, a[1].i, a[2].d); break;
    case 15: ret = ((I (*)(I, P, D)) f)(a[0].i, u, a[2].d); break;
    case 16: ret = ((I (*)(P, F)) f)(u, (float) a[1].d); break;
    case 17: ret = ((I (*)(D, D, P)) f)(a[0].d, a[1].d, u); break;
  }
  // what the event came with is gone after it
  for (int i = 0; i < n; i++) { for (char &c : a[i].keep) c = '#'; a[i].m.p = nullptr; a[i].m.len = 1 << 20; }
  if (w->ex.size() != me + 1) S.fail("harness", "expectation stack out of step");
  Expect y = w->ex.back();
  w->ex.pop_back();
  if (!y.delivered) S.fail("not-delivered", "an event of %s did not run callback %d: %s", sg.text, h.func, w->e->errtext().c_str());
  bool err = w->e->errtext() != "NO_ERROR";
  if (err != y.fails) S.fail(err ? "spurious-error" : "missed-error", "callback %d %s: %s", h.func, err ? "failed" : "did not fail", w->e->errtext().c_str());
  long want = y.fails || sg.ret == 'v' ? 0 : sg.ret == 'b' ? (w->next_r & 1) : w->next_r;
  if (sg.ret != 'v' && ret != want) S.fail("wrong-return", "the event's result was %ld, expected %ld (%s%s)", ret, want, sg.text, y.fails ? ", failing callback" : "");
  S.log("fired handle %d -> %ld%s", hi, ret, y.fails ? " failed" : "");
  S.probe(y.fails ? "failing_callback" : "event_delivered");
  *failed = y.fails;
  if (top && y.fails) {}  // the next engine call starts afresh
  S.sh->ops_done++;
}
static bool is_fresh(const std::string &k) { return k.compare(0, 5, "fresh") == 0 || k.compare(0, 6, "'fresh") == 0; }
// The value a user-data key stands for, as script text.
static std::string mkud(std::string &key) {
  Rng &r = w->r;
  switch (r.below(11)) {
    case 0: case 1: case 2: { int i = (int) r.below(NSLOT); key = strf("slot%d", i); return strf("kept(%d)", i); }
    case 3: {  // numbers, some of them close to each other
      static const char *n[] = {"-2", "-1", "0", "1", "2", "3", "1.25", "1.5", "1.75", "-1.5", "0.5", "4294967297", "4294967298", "2147483648"};
      key = n[r.below(14)];
      return key[0] == '-' ? "(0 - " + key.substr(1) + ")" : key;
    }
    case 10: if (r.chance(0.3)) { key = r.chance(0.5) ? "true" : "false"; return key; } goto fresh;
    case 4: { static const char *s[] = {"", "ab", "abcde", "abcdf", "1", "true"}; int i = (int) r.below(6); key = strf("'%s'", s[i]); return key; }
    case 5: key = "null"; return "null";
    case 6: key = "undefined"; return "undefined";
    case 7: case 8: {  // text only the registration refers to
      int id = w->fresh++;
      key = strf("'fresh user data text %d'", id);
      return strf("('fresh user ' + 'data text %d')", id);
    }
    default: fresh: { int id = w->fresh++; key = strf("fresh%d", id); return strf("{id: %d, txt: 'text of user data ' + '%d', pad: {a: [1, 2]}}", id, id); }
  }
}
// Imported callbacks take numbers and texts only; sig may be changed to a suitable one.
static const char *KEPT[] = {"int tgt_i(int)", "int tgt_ii(int, int)", "bool tgt_iii(int, int, int)", "int tgt_sii(char *, int, int)", "int tgt_is(int, char *)", "int tgt_s(char *)"};
static bool pick_import(int &sig, int &func, std::string &key, std::string &ud, std::string &fexpr) {
  Rng &r = w->r;
  static const struct { int sig, imp; bool text; } M[] = {{0, 0, false}, {1, 1, false}, {2, 1, false}, {3, 2, false}, {4, 3, false}, {11, 4, false}, {0, 5, true}, {1, 4, true}};
  auto &m = M[r.below(8)];
  bool kept = r.below(3) == 0;
  if (m.text) { static const char *t[] = {"", "ab", "abcde", "fresh and longer text as the user data"}; key = strf("'%s'", t[r.below(4)]); ud = key; }
  else { int n = (int) r.range(-2, 3); key = strf("%d", n); ud = n < 0 ? strf("(0 - %d)", -n) : strf("%d", n); }
  sig = m.sig;
  func = kept ? 300 + m.imp : 200 + w->fresh++;
  fexpr = kept ? strf("imp%d", m.imp) : strf("ffi('%s')", KEPT[m.imp]);
  return true;
}
static bool temp_import(int f) { return f >= 200 && f < 300; }
static std::string fname(int f) { return f >= 300 ? strf("imp%d", f - 300) : f >= 100 ? strf("fcb%d", f - 100) : strf("cb%d", f); }
static void one_op(const char *name, bool nested) {
  Engine *e = w->e;
  Rng &r = w->r;
  std::string op = name;
  if (op == "reg") {
    if (w->hs.size() >= 40) return;
    int sig = (int) r.below(NSIG), ord = (int) r.below(NORDER);
    if (SIGS[sig].maybe && !r.chance(0.4)) sig = (int) r.below(12);
    if (strlen(SIGS[sig].args) && w->rejected[sig]) return;
    int func = r.below(6) == 0 ? 100 + (int) r.below(NFOREIGN) : (int) r.below(NCB);
    std::string key, ud;
    // sometimes the same pair again
    if (!w->hs.empty() && r.below(3) == 0) {
      Handle &o = w->hs[r.below(w->hs.size())];
      if (!is_fresh(o.key) && o.func < 200) {
        func = o.func;
        key = o.key;
        ud = key.compare(0, 4, "slot") == 0 ? "kept(" + key.substr(4) + ")" : key[0] == '-' ? "(0 - " + key.substr(1) + ")" : key;
        S.probe("registered_again");
      }
    }
    if (ud.empty()) ud = mkud(key);
    std::string fexpr = fname(func);
    // an imported function as the callback: one only the registration refers to, or one the script keeps
    if (r.below(5) == 0 && pick_import(sig, func, key, ud, fexpr)) S.probe(func < 300 ? "temporary_import_registered" : "kept_import_registered");
    int id = (int) w->hs.size();
    w->hs.push_back({sig, key, func, nullptr, nullptr, true});
    std::string s = strf(ORDERS[ord], SIGS[sig].text), c = strf(CALLS[ord], id);
    size_t fp = c.find('F'), up = c.find('U');
    if (fp < up) { c.replace(up, 1, ud); c.replace(fp, 1, fexpr); } else { c.replace(fp, 1, fexpr); c.replace(up, 1, ud); }
    w->pending = id;
    w->each = !nested && r.below(5) == 0 ? (int) r.below(4) : 0;
    w->live.insert({func, key});
    std::string src = r.below(2) ? "ffi('" + s + "')" + c + ";" : "let rf = {f: ffi('" + s + "')}; rf.f" + c + "; rf = null;";
    src = "(function() { " + src + " })();";
    S.log("reg %d: %s", id, src.c_str());
    mjs_err_t err = e->exec(src);
    if (err != MJS_OK) {
      if (SIGS[sig].maybe && w->pending == id) {
        w->rejected[sig] = true;
        w->hs.pop_back();
        w->pending = -1;
        w->each = 0;
        bool other = false;
        for (auto &h : w->hs) if (h.live && h.func == func && h.key == key) other = true;
        if (!other) w->live.erase({func, key});
        S.probe("signature_rejected");
        if (nested) mjs_set_errorf(e->m, MJS_OK, NULL);
        return;
      }
      S.fail("spurious-error", "registering failed: %s | %s", mjs_strerror(e->m, err), src.c_str());
    }
    if (w->pending >= 0) S.fail("wrong-registration", "the registering function was not called: %s", src.c_str());
  } else if (op == "fire" || op == "sfire") {
    std::vector<int> c;
    for (size_t i = 0; i < w->hs.size(); i++) if (w->hs[i].live) c.push_back((int) i);
    if (c.empty()) return;
    int h = r.pick(c);
    bool failed = false;
    if (op == "fire") {
      if (!nested) mjs_set_errorf(e->m, MJS_OK, NULL);  // the host deals with earlier errors
      fire(h, &failed, !nested);
      if (nested && failed) {
        if (r.below(2)) { mjs_set_errorf(e->m, MJS_OK, NULL); S.probe("nested_failure_swallowed"); }
        else { w->ex.back().fails = true; S.probe("nested_failure_propagates"); }
      }
    } else {
      mjs_val_t res = mjs_mk_undefined();
      mjs_err_t err = e->exec(strf("let q = {v: 3, m: function(x) { for (let i = 0; i < 1; i++) { return this.v + (1 + x * 2) * 1 + fireh(%d); } }}; q.m(5);", h), &res);
      if (err == MJS_OK && (!mjs_is_number(res) || mjs_get_int(e->m, res) != 14 + w->next_r)) S.fail("wrong-result", "the script around an event got %s, expected %d", e->dump(res).c_str(), 14 + w->next_r);
      S.probe("event_inside_expression");
    }
  } else if (op == "free") {
    int func;
    std::string key;
    if (!w->hs.empty() && r.below(4)) { Handle &h = w->hs[r.below(w->hs.size())]; func = h.func; key = h.key; if (is_fresh(key) || temp_import(func)) return; }
    else { func = (int) r.below(NCB); key = strf("slot%d", (int) r.below(NSLOT)); }
    std::string ud = key.compare(0, 4, "slot") == 0 ? "kept(" + key.substr(4) + ")" : key[0] == '-' ? "(0 - " + key.substr(1) + ")" : key;
    mjs_val_t res = mjs_mk_undefined();
    std::string src = "ffi_cb_free(" + fname(func) + ", " + ud + ");";
    mjs_err_t err = e->exec(src, &res);
    if (err != MJS_OK) S.fail("spurious-error", "freeing failed: %s | %s", mjs_strerror(e->m, err), src.c_str());
    bool was = w->live.erase({func, key}) != 0;
    if (!mjs_is_number(res) || mjs_get_int(e->m, res) != (was ? 1 : 0)) S.fail("wrong-free", "%s returned %s for a %s registration", src.c_str(), e->dump(res).c_str(), was ? "live" : "dead");
    for (auto &h : w->hs) if (h.func == func && h.key == key) h.live = false;
    S.log("free %d %s %d", func, key.c_str(), was);
  } else if (op == "gc") mjs_gc(e->m, (int) r.below(2));
  else if (op == "garbage") {
    if (e->exec("(function() { let t = []; for (let i = 0; i < 12; i++) { t.push({a: 'garbage number ' + JSON.stringify(i), b: {c: i}}); let q = ffi('int f_add(int, int)'); } })();") != MJS_OK) S.fail("spurious-error", "garbage script failed: %s", e->errtext().c_str());
  } else if (op == "fail") {
    if (e->exec("(function() { let o = {z: 1}; for (let k in o) { die('x'); } })();") == MJS_OK) S.fail("missed-error", "die did not fail");
  }
}
static void plan04(Rng &r, Plan &p) {
  p.cfg["gc"] = (int64_t) r.below(3);
  p.cfg["reenter"] = (int64_t) r.below(3);
  static const char *K[] = {"reg", "reg", "reg", "fire", "fire", "fire", "fire", "fire", "sfire", "sfire", "free", "free", "gc", "garbage", "fail"};
  int n = (int) r.range(4, 45);
  for (int i = 0; i < n; i++) p.add(K[i < 2 ? 0 : r.below(15)], {(int64_t) r.below(1u << 30)});
}
static void run04(const Plan &p) {
  Engine e;
  W4 world;
  w = &world;
  w->e = &e;
  S.armed = false;
  e.create();
  mjs_set_ffi_resolver(e.m, resolver04);
  mjs_val_t g = mjs_get_global(e.m);
  struct { const char *n; void (*f)(struct mjs *); } HF[] = {{"rec", h_rec}, {"freed", h_freed}, {"fireh", h_fire}, {"fcb0", h_fcb0}, {"fcb1", h_fcb1}};
  for (auto &h : HF) mjs_set(e.m, g, h.n, ~0, mjs_mk_foreign_func(e.m, (mjs_func_ptr_t) h.f));
  std::string src;
  for (int i = 0; i < NCB; i++) {
    int ui = 0;
    (void) ui;
    src += strf("let cb%d = function(a, b, c, d, e, f) { let x = rec(%d, a, b, c, d, e, f); if (x.k === 1) { freed(ffi_cb_free(cb%d, udof(a, b, c, d, e, f))); } if (x.k === 2) { die('callback %d fails'); } if (x.k === 4) { gc(true); } if (x.b) { return x.t; } return x.r; };\n", i, i, i, i);
  }
  // which argument is the user data is the host's knowledge
  mjs_set(e.m, g, "udof", ~0, mjs_mk_foreign_func(e.m, (mjs_func_ptr_t) (void (*)(struct mjs *)) [](struct mjs *m) {
    const char *a = SIGS[(unsigned char) w->ex.back().want[0]].args;
    mjs_return(m, mjs_arg(m, (int) (strchr(a, 'u') - a)));
  }));
  for (int i = 0; i < 6; i++) src += strf("let imp%d = ffi('%s');\n", i, KEPT[i]);
  src += "keep(0, {nm: 'slot zero'}); keep(1, {nm: 'slot one', z: [1]}); keep(2, [1, 2, {q: 3}]); keep(3, 'a long string kept by the host program'); keep(4, {}); keep(5, {nm: 5});";
  if (e.exec(src) != MJS_OK) S.fail("prelude", "prelude failed: %s", e.errtext().c_str());
  static const double GC[] = {0, 0.03, 0.3}, RE[] = {0, 0.3, 0.8};
  S.rate[F_GC] = GC[p.get("gc")];
  S.rate[F_GC_HOST] = S.rate[F_GC_HOSTFULL] = p.get("gc") ? 0.15 : 0;
  w->reenter = RE[p.get("reenter")];
  S.armed = true;
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    w->r = Rng((uint64_t) op.a[0]);
    w->nested = 0;
    S.log("%s", op.name.c_str());
    one_op(op.name.c_str(), false);
    std::string st;
    for (auto &h : w->hs) st += strf("%d%s%d;", h.func, is_fresh(h.key) ? "f" : h.key.c_str(), h.live * (h.sig + 1));
    S.state(fnvs(st));
    for (auto &t : w->texts) if (!mjs_is_string(t.v) || getstr(e.m, t.v) != t.want)
      S.fail("text-changed", "a text that came with an event was '%s', now it is %s", esc(t.want).c_str(), e.dump(t.v).c_str());
    S.sh->ops_done++;
  }
  // every registration still live gets one more event
  S.begin_op(100000);
  w->r = Rng(p.seed + 5);
  w->reenter = 0;
  mjs_gc(e.m, 1);
  for (size_t i = 0; i < w->hs.size(); i++)
    if (w->hs[i].live) { bool f = false; mjs_set_errorf(e.m, MJS_OK, NULL); fire((int) i, &f, true); }
  S.armed = false;
  for (auto &t : w->texts) mjs_disown(e.m, &t.v);
  e.destroy();
}
static Reg reg04("P04", plan04, run04);
