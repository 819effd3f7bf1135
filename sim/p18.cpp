// P18: a loop over the properties of an object copes with every change made to the object meanwhile.
#include "common.h"

namespace {
enum { NO18 = 4, ARR18 = 3 };   // the last object is an array
struct Prop18 { int v; uint64_t added; };
struct Loop18 { int o; uint64_t start; std::map<std::string, uint64_t> seen; bool ended = false; };
struct W18 {
  Engine e;
  std::map<std::string, Prop18> ob[NO18];
  std::vector<Loop18> loops;
  uint64_t now = 1;
  int fresh = 0, budget = 0, visits = 0;
  double mut = 0.3, brk = 0.1;
  std::string src;
};
W18 *w;
std::string on(int o) { return strf("ox%d", o); }
mjs_val_t ov(int o) { return w->e.global(on(o).c_str()); }
void model_set(int o, const std::string &k, int v) {
  auto it = w->ob[o].find(k);
  if (it == w->ob[o].end()) w->ob[o][k] = {v, w->now}; else it->second.v = v;
}
int array_len(int o) { int n = 0; for (auto &x : w->ob[o]) n = std::max(n, atoi(x.first.c_str()) + 1); return n; }
std::string newkey(Rng &r) {
  int i = w->fresh++;
  switch (r.below(4)) {
    case 0: return strf("k%d", i % 1000);
    case 1: return strf("key_%d", i);
    case 2: return strf("a property with a long name %d", i);
    default: return strf("%d", 1000 + i);
  }
}
void set1(int o, const std::string &k, int v, Rng &r) {
  struct mjs *m = w->e.m;
  if (o == ARR18) {
    int i = atoi(k.c_str());
    if (i == array_len(o) && r.chance(0.5)) mjs_array_push(m, ov(o), mjs_mk_number(m, v));
    else mjs_array_set(m, ov(o), (unsigned long) i, mjs_mk_number(m, v));
  } else if (r.chance(0.25)) {
    if (mjs_exec(m, strf("{ ox%d['%s'] = %d; }", o, k.c_str(), v).c_str(), nullptr) != MJS_OK) { mjs_set_errorf(m, MJS_OK, NULL); if (!mjs_is_number(mjs_get(m, ov(o), k.c_str(), ~0)) || mjs_get_int(m, mjs_get(m, ov(o), k.c_str(), ~0)) != v) return; }
  } else if (r.chance(0.3)) {
    mjs_val_t kv = mkstr(m, k);
    mjs_own(m, &kv);
    mjs_set_v(m, ov(o), kv, mjs_mk_number(m, v));
    mjs_disown(m, &kv);
  } else mjs_set(m, ov(o), k.c_str(), r.chance(0.5) ? ~0 : k.size(), mjs_mk_number(m, v));
  model_set(o, k, v);
}
void del1(int o, const std::string &k) {
  int had = (int) w->ob[o].erase(k);
  if (o == ARR18) { mjs_array_del(w->e.m, ov(o), (unsigned long) atoi(k.c_str())); return; }
  int ret = mjs_del(w->e.m, ov(o), k.c_str(), k.size());
  if ((ret == 0) != (had == 1)) S.fail("wrong-delete", "deleting '%s', which the object %s, returned %d", k.c_str(), had ? "has" : "does not have", ret);
}
void mutate(int64_t arg) {
  Rng r((uint64_t) arg);
  int o = (int) r.below(NO18);
  if (!w->loops.empty() && r.chance(0.7)) o = w->loops[w->loops.size() - 1 - r.below(std::min<size_t>(3, w->loops.size()))].o;
  auto any = [&]() -> std::string { if (w->ob[o].empty()) return ""; auto it = w->ob[o].begin(); std::advance(it, (long) r.below(w->ob[o].size())); return it->first; };
  w->now++;
  auto add = [&] {
    if (w->budget <= 0) return;
    w->budget--;
    std::string k = o == ARR18 ? strf("%d", array_len(o) + (int) r.below(2)) : newkey(r);
    set1(o, k, (int) r.below(1000), r);
  };
  switch (r.below(9)) {
    case 0: case 1: { std::string k = any(); if (!k.empty()) del1(o, k); S.probe("deleted"); break; }
    case 2: add(); S.probe("added"); break;
    case 3: { std::string k = any(); if (!k.empty()) set1(o, k, (int) r.below(1000), r); break; }
    case 4: { int n = (int) r.range(2, 6); for (int i = 0; i < n; i++) { std::string k = any(); if (!k.empty()) del1(o, k); } S.probe("deleted_several"); break; }
    case 5: { std::string k = any(); if (!k.empty() && w->budget > 0) { w->budget--; del1(o, k); w->now++; set1(o, k, (int) r.below(1000), r); S.probe("deleted_and_added_again"); } break; }
    case 6: mjs_gc(w->e.m, (int) r.below(2)); break;
    case 7: {  // other objects take the room of what was deleted
      mjs_gc(w->e.m, 0);
      mjs_val_t g = mjs_mk_object(w->e.m);
      mjs_own(w->e.m, &g);
      for (int i = (int) r.range(1, 12); i > 0; i--) mjs_set(w->e.m, g, strf("garbage%d", i).c_str(), ~0, mjs_mk_number(w->e.m, -i));
      mjs_disown(w->e.m, &g);
      break;
    }
    case 8: { int n = (int) r.range(1, 4); while (n--) { std::string k = any(); if (!k.empty() && r.chance(0.7)) del1(o, k); else add(); w->now++; } break; }
  }
  w->now++;
}
void maybe_mutate() {
  int64_t arg = 0;
  if (S.armed && S.decide(F_MUTATE, w->mut, &arg, 1 << 30)) mutate(arg);
}
void h_beg(struct mjs *m) {
  int o = mjs_get_int(m, mjs_arg(m, 0));
  w->loops.push_back({o, w->now++, {}, false});
  mjs_return(m, mjs_mk_number(m, (double) w->loops.size() - 1));
}
void h_vis(struct mjs *m) {
  int l = mjs_get_int(m, mjs_arg(m, 0));
  Loop18 &L = w->loops[(size_t) l];
  mjs_val_t kv = mjs_arg(m, 1), v = mjs_arg(m, 2);
  w->now++;
  w->visits++;
  if (!mjs_is_string(kv)) S.fail("wrong-visit", "a loop over object %d gave a key that is no string: %s | %s", L.o, w->e.dump(kv).c_str(), esc(w->src, 2500).c_str());
  std::string k = getstr(m, kv);
  auto it = w->ob[L.o].find(k);
  if (it == w->ob[L.o].end()) S.fail("wrong-visit", "a loop over object %d visits '%s', which the object does not have (any more) | %s", L.o, esc(k).c_str(), esc(w->src, 2500).c_str());
  if (!mjs_is_number(v) || mjs_get_int(m, v) != it->second.v) S.fail("wrong-visit", "property '%s' of object %d is %s, expected %d | %s", esc(k).c_str(), L.o, w->e.dump(v).c_str(), it->second.v, esc(w->src, 2500).c_str());
  auto s = L.seen.find(k);
  if (s != L.seen.end() && it->second.added < s->second) S.fail("visited-twice", "a loop over object %d visits '%s' twice | %s", L.o, esc(k).c_str(), esc(w->src, 2500).c_str());
  if (L.ended) S.fail("wrong-visit", "a loop that had ended goes on | %s", esc(w->src, 2500).c_str());
  L.seen[k] = w->now;
  S.log("loop %d visits %s", l, k.c_str());
  if (w->visits > 20000) S.fail("endless", "loops made %d visits although only a bounded number of properties was added | %s", w->visits, esc(w->src, 2500).c_str());
  maybe_mutate();
  mjs_return(m, mjs_mk_undefined());
}
void h_fin(struct mjs *m) {
  Loop18 &L = w->loops[(size_t) mjs_get_int(m, mjs_arg(m, 0))];
  for (auto &x : w->ob[L.o]) if (x.second.added < L.start && !L.seen.count(x.first)) S.fail("not-visited", "a loop over object %d ended without visiting '%s', which was there all the time | %s", L.o, esc(x.first).c_str(), esc(w->src, 2500).c_str());
  L.ended = true;
  w->now++;
  S.probe("loop_ended");
  mjs_return(m, mjs_mk_undefined());
}
void h_brk(struct mjs *m) {
  int64_t arg = 0;
  bool b = S.armed && S.decide(F_LEAVE, w->brk, &arg, 4);
  if (b) S.probe("loop_left_early");
  mjs_return(m, mjs_mk_boolean(m, b));
}
void h_mut(struct mjs *m) { maybe_mutate(); mjs_return(m, mjs_mk_undefined()); }

struct G18 {
  Rng r;
  int uid = 0;
  std::string block(int d, bool fn, bool inl) {
    std::string s;
    for (int i = (int) r.range(1, 3); i > 0; i--) s += stmt(d, fn, inl);
    return s;
  }
  std::string loop(int d, bool fn) {
    int o = (int) r.below(NO18), u = uid++;
    std::string over = on(o), k = strf("k%d", u), l = strf("l%d", u);
    if (r.chance(0.2)) over = strf("id(%s)", on(o).c_str());
    else if (r.chance(0.2)) over = strf("all[%d]", o);
    std::string b = strf("vis(%s, %s, %s[%s]); ", l.c_str(), k.c_str(), on(o).c_str(), k.c_str());
    b += block(d - 1, fn, true);
    if (r.chance(0.4)) {
      const char *how = fn && r.chance(0.4) ? "return 1;" : r.chance(0.2) ? "die('left');" : "break;";
      if (r.chance(0.2)) how = "continue;";
      std::string x = strf("if (brk()) { %s } ", how);
      if (strcmp(how, "continue;") == 0) b = x.insert(0, strf("vis(%s, %s, %s[%s]); ", l.c_str(), k.c_str(), on(o).c_str(), k.c_str())) + block(d - 1, fn, true);
      else b += x;
    }
    // after a break, the end of the loop says nothing
    bool left = b.find("break;") != std::string::npos;
    return strf("let %s = beg(%d); for (let %s in %s) { %s} ", l.c_str(), o, k.c_str(), over.c_str(), b.c_str()) + (left ? "" : strf("fin(%s); ", l.c_str()));
  }
  std::string stmt(int d, bool fn, bool) {
    if (d <= 0) switch (r.below(4)) {
      case 0: return "mut(); ";
      case 1: { int u = uid++; return strf("let t%d = {a: 'some ' + 'text', b: [1, 2]}; ", u); }
      case 2: return strf("id('some ' + 'more text', {a: %d}); ", (int) r.below(100));
      default: return "gc(false); ";
    }
    switch (r.below(8)) {
      case 0: case 1: case 2: return "{ " + loop(d, fn) + "} ";
      case 3: { int u = uid++; return strf("let f%d = function(a) { %sreturn a; }; f%d(%d); ", u, block(d - 1, true, false).c_str(), u, (int) r.below(9)); }
      case 4: return strf("htry(function(a) { %sreturn a; }, {}, 1); ", block(d - 1, true, false).c_str());
      case 5: return strf("hcall(function(a, b) { %sreturn a; }, {}, 1, 2); ", block(d - 1, true, false).c_str());
      case 6: return strf("for (let i%d = 0; i%d < %d; i%d++) { %s} ", uid, uid, (int) r.range(1, 3), uid, (uid++, block(d - 1, fn, false)).c_str());
      default: return "mut(); ";
    }
  }
};
}  // namespace

static void plan18(Rng &r, Plan &p) {
  p.cfg["gc"] = (int64_t) r.below(4);
  p.cfg["mut"] = (int64_t) r.below(4);
  p.cfg["brk"] = (int64_t) r.below(3);
  p.cfg["fail"] = (int64_t) r.below(4);
  p.cfg["size"] = r.range(1, 12);
  p.cfg["fill"] = r.chance(0.5) ? 0xA5 : 0;
  static const char *K[] = {"loops", "loops", "loops", "call", "host", "change", "refill"};
  int n = (int) r.range(2, 9);
  for (int i = 0; i < n; i++) p.add(K[r.below(7)], {(int64_t) r.below(1u << 30), r.range(1, 4)});
}
static void run18(const Plan &p) {
  A.fill = (int) p.get("fill");
  S.max_steps_op = 3000000;
  W18 world;
  w = &world;
  Model scratch;
  S.armed = false;
  Engine &e = world.e;
  e.create();
  host_bind_model(scratch);
  run_prelude(e, scratch);
  struct mjs *m = e.m;
  mjs_val_t g = mjs_get_global(m);
  static const struct { const char *n; void (*f)(struct mjs *); } H[] = {{"beg", h_beg}, {"vis", h_vis}, {"fin", h_fin}, {"brk", h_brk}, {"mut", h_mut}};
  for (auto &h : H) mjs_set(m, g, h.n, ~0, mjs_mk_foreign_func(m, (mjs_func_ptr_t) h.f));
  if (e.exec("let ox0 = {}; let ox1 = {}; let ox2 = {}; let ox3 = []; let all = [ox0, ox1, ox2, ox3];") != MJS_OK) S.fail("prelude", "prelude failed");
  static const double GC[] = {0, 0.01, 0.1, 0.5}, MUT[] = {0.1, 0.3, 0.7, 0.02}, BRK[] = {0, 0.1, 0.4}, FA[] = {0, 0, 0, 0.001};
  w->mut = MUT[p.get("mut")];
  w->brk = BRK[p.get("brk")];
  Rng r0(p.seed * 3 + 1);
  auto fill = [&](Rng &r) {
    for (int o = 0; o < NO18; o++) {
      int n = (int) r.below((uint64_t) p.get("size") + 1);
      while ((int) w->ob[o].size() < n) { w->now++; set1(o, o == ARR18 ? strf("%d", array_len(o)) : newkey(r), (int) r.below(1000), r); }
    }
  };
  fill(r0);
  S.rate[F_GC] = GC[p.get("gc")];
  S.rate[F_GC_HOST] = p.get("gc") ? 0.1 : 0;
  S.rate[F_FAIL_OP] = FA[p.get("fail")];
  S.armed = true;
  auto compare = [&](const char *after) {
    for (int o = 0; o < NO18; o++) {
      std::set<std::string> have;
      mjs_val_t it = mjs_mk_undefined(), k, obj = ov(o);
      while ((k = mjs_next(m, obj, &it)) != mjs_mk_undefined()) {
        std::string s = getstr(m, k);
        if (!have.insert(s).second) S.fail("wrong-object", "after %s, object %d lists '%s' twice", after, o, esc(s).c_str());
        auto f = w->ob[o].find(s);
        if (f == w->ob[o].end() || mjs_get_int(m, mjs_get(m, obj, s.c_str(), s.size())) != f->second.v) S.fail("wrong-object", "after %s, property '%s' of object %d is %s, expected %s", after, esc(s).c_str(), o,
          e.dump(mjs_get(m, obj, s.c_str(), s.size())).c_str(), f == w->ob[o].end() ? "absent" : strf("%d", f->second.v).c_str());
      }
      if (have.size() != w->ob[o].size()) S.fail("wrong-object", "after %s, object %d has %zu properties, expected %zu", after, o, have.size(), w->ob[o].size());
    }
    S.state(fnvs(e.dump(e.global("all"), 300)));
  };
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    Rng r((uint64_t) op.a[0]);
    S.log("%s", op.name.c_str());
    w->loops.clear();
    w->budget = 40;
    w->visits = 0;
    if (op.name == "change") mutate((int64_t) r.below(1u << 30));
    else if (op.name == "refill") { bool ar = S.armed; S.armed = false; fill(r); S.armed = ar; }
    else if (op.name == "host") {  // the host walks an object and adds, sets and collects, but deletes nothing, on the way
      int o = (int) r.below(ARR18);
      std::map<std::string, Prop18> before = w->ob[o];
      std::set<std::string> seen;
      mjs_val_t it = mjs_mk_undefined(), k;
      while ((k = mjs_next(m, ov(o), &it)) != mjs_mk_undefined()) {
        std::string s = getstr(m, k);
        if (!w->ob[o].count(s)) S.fail("wrong-visit", "the host's walk over object %d visits '%s', which it does not have", o, esc(s).c_str());
        if (!seen.insert(s).second) S.fail("visited-twice", "the host's walk over object %d visits '%s' twice", o, esc(s).c_str());
        if (r.chance(0.3) && w->budget-- > 0) { w->now++; set1(o, newkey(r), (int) r.below(1000), r); }
        if (r.chance(0.3)) set1(o, s, (int) r.below(1000), r);
        if (r.chance(0.3)) mjs_gc(m, 1);
      }
      for (auto &x : before) if (!seen.count(x.first)) S.fail("not-visited", "the host's walk over object %d did not visit '%s'", o, esc(x.first).c_str());
    } else {
      G18 gen{Rng((uint64_t) op.a[0])};
      int d = (int) op.a[1];
      std::string src;
      for (int i = (int) r.range(1, 2); i > 0; i--) src += "{ " + gen.loop(d, false) + "} ";
      if (op.name == "call") src = strf("let fl%d = function() { ", op.id) + src + strf("}; fl%d();", op.id);
      w->src = src;
      if (S.verbose) { printf("%s\n", src.c_str()); fflush(stdout); }
      uint64_t f0 = tl_fails;
      bool dies = src.find("die('left')") != std::string::npos;
      mjs_err_t err = e.exec(src);
      if (err != MJS_OK && tl_fails == f0 && !(dies && e.errtext().find("left") != std::string::npos)) S.fail("spurious-error", "loops failed: %s | %s", e.errtext().c_str(), esc(src, 2500).c_str());
      e.trace.clear();
    }
    compare(op.name.c_str());
    S.sh->ops_done++;
  }
  S.armed = false;
  mjs_gc(m, 1);
  compare("final collection");
  e.destroy();
  w = nullptr;
}
static Reg reg18("P18", plan18, run18);
