// P08: load() evaluates each file once, retries failures, and isolates namespaces.
#include "common.h"
using namespace nb;

enum { NF = 8, BOOT = 7 };
static const char *FN[NF] = {"lib.js", "lib2.js", "li.js", "dir/lib.js", "lib.js.js", "b.js", "c.js", "boot.js"};
struct LFile {
  bool on_disk = false, good = true;      // good: parses
  std::vector<Node *> prog;               // what the engine holds once parsed
  bool parsed = false, ok = false;        // ok: last evaluation succeeded
  bool failed = false;                    // last evaluation failed
  int active = 0;                         // evaluations going on
  bool running = false;                   // being evaluated for the first time
  bool shared_ok = false;                 // evaluated successfully in the shared namespace at least once
};
struct MUnspec {};
struct W08 {
  Engine e;
  Model m;
  LFile f[NF];
  size_t openpos = 0;
  bool disk_faults = false;
};

static Node *load_stmt(Rng &r, int j, bool may_ns, int *uses_ns) {
  std::vector<Node *> a = {T(FN[j])};
  if (may_ns && r.chance(0.25)) {
    *uses_ns = 1;
    a.push_back(r.chance(0.7) ? V(strf("ns%llu", (unsigned long long) r.below(3))) : obj({"mark"}, {N((double) j)}));
  }
  return call(V("load"), a);
}
static Node *wrapped(Rng &r, Node *ld) {
  switch (r.below(7)) {
    case 0: return st(call(V("htry"), {fn({"la"}, {st(ld), ret(V("la"))}), obj(), N(3)}));
    case 1: return st(call(V("hcall"), {fn({"la"}, {st(ld)}), obj(), N(1), N(2)}));
    case 2: return st(call(V("emit"), {call(V("f_each_"), {N(2), fn({"la", "lb"}, {st(ld), ret(V("la"))}), obj()})}));
    case 3: return st(call(dot(fn({"la"}, {st(ld)}), "apply"), {mk(E_NULL), mk(E_ARRAY, "", {N(4)})}));
    case 4: return iff(bin("<", V("cnt_all"), N((double) r.range(1, 30))), {st(ld)});
    default: return st(ld);
  }
}
// a file's text: what it does when evaluated
static std::vector<Node *> make_file(Rng &r, int i, int ver) {
  std::vector<Node *> o;
  o.push_back(st(call(V("emit"), {T(strf("eval %s %d", FN[i], ver))})));
  o.push_back(set(V("cnt_all"), bin("+", V("cnt_all"), N(1))));
  int n = (int) r.range(1, 5);
  bool fdef = false;
  for (int k = 0; k < n; k++) {
    int j = i + 1 < NF ? (int) r.range(i + 1, NF - 1) : -1, dummy = 0;
    switch (r.below(8)) {
      case 7:  // a load of this or an earlier file, a few times
        if (r.chance(0.5)) {
          int a = (int) r.range(4, 40);
          o.push_back(iff(bin(">", V("cnt_all"), N((double) a)), {iff(bin("<", V("cnt_all"), N((double) (a + (int) r.range(2, 6)))), {wrapped(r, load_stmt(r, (int) r.range(0, i), true, &dummy))})}));
        }
        break;
      case 0: o.push_back(let(strf("v%d", i), N((double) r.below(100)))); break;
      case 1: o.push_back(st(call(V("cp"), {N(i * 100 + k)}))); break;
      case 2: case 3: if (j > 0) o.push_back(wrapped(r, load_stmt(r, j, true, &dummy))); break;
      case 4: {
        std::vector<Node *> b = {st(call(V("cp"), {N(i * 100 + 50)})), st(call(V("emit"), {T(strf("fn of %s", FN[i]))}))};
        if (j > 0 && r.chance(0.4)) b.push_back(st(load_stmt(r, j, true, &dummy)));
        b.push_back(ret(bin("+", V("la"), N(1))));
        o.push_back(let(strf("fn%d", i), fn({"la"}, b)));
        fdef = true;
        break;
      }
      case 5: if (fdef) o.push_back(st(call(V("emit"), {call(V(strf("fn%d", i)), {N(k)})}))); break;
      case 6: if (r.chance(0.5)) o.push_back(let(strf("common%llu", (unsigned long long) r.below(2)), T(FN[i]))); else o.push_back(set(V("cnt_all"), bin("+", V("cnt_all"), N(10)))); break;
    }
  }
  if (r.chance(0.5)) o.push_back(let(strf("done%d", i), N(ver)));
  return o;
}
static std::vector<Node *> make_main(Rng &r, Model &m) {
  auto have = [&](const std::string &n) { MVal *v = m.global(n); return v && v->t == M_FN; };
  auto nshas = [&](const std::string &ns, const std::string &n) { MVal *v = m.global(ns); return v && v->t == M_OBJ && m.heap[v->ref].find(n); };
  std::vector<Node *> o;
  int n = (int) r.range(1, 5);
  for (int k = 0; k < n; k++) {
    int dummy = 0, j = (int) r.below(NF);
    int what = (int) r.below(6);
    std::string ns = strf("ns%llu", (unsigned long long) r.below(3)), f = strf("fn%d", j);
    if ((what == 3 || what == 5) && !have(f) && r.chance(0.85)) what = 0;
    if (what == 4 && !nshas(ns, f) && r.chance(0.85)) what = 0;
    switch (what) {
      case 0: case 1: case 2: o.push_back(wrapped(r, load_stmt(r, j, true, &dummy))); break;
      case 3: o.push_back(wrapped(r, call(V(f), {N(k)}))); break;
      case 4: o.push_back(wrapped(r, call(dot(V(ns), f), {N(k)}))); break;
      case 5: o.push_back(st(call(V("htry"), {V(strf("fn%d", j)), obj(), N(k)}))); break;
    }
  }
  o.push_back(st(call(V("emit"), {T("main done")})));
  return o;
}
static void plan08(Rng &r, Plan &p) {
  p.cfg["gc"] = (int64_t) r.below(4);
  p.cfg["fail"] = (int64_t) r.below(4);
  p.cfg["openfail"] = (int64_t) r.below(3);
  p.cfg["boot"] = r.chance(0.3);
  p.cfg["files"] = (int64_t) r.below(1u << 30);
  p.cfg["missing"] = r.chance(0.3) ? (int64_t) (r.below(128) & r.below(128) & r.below(128)) : 0;
  p.cfg["bad"] = r.chance(0.3) ? (int64_t) (r.below(128) & r.below(128) & r.below(128)) : 0;
  static const char *K[] = {"main", "main", "main", "main", "file", "call", "repair", "gc"};
  int n = (int) r.range(2, 14);
  for (int i = 0; i < n; i++) p.add(K[r.below(8)], {(int64_t) r.below(NF), (int64_t) r.below(1u << 30)});
}
static void bind_load(W08 &w) {
  w.m.setraw(MVal{M_OBJ, 0, "", 0, nullptr}, "load", MVal::host("load"));
  w.m.host["load"] = [&w](Model &m, const MVal &, std::vector<MVal> &a) -> MVal {
    int i = -1;
    for (int k = 0; k < NF; k++) if (a[0].s == FN[k]) i = k;
    LFile &f = w.f[i];
    if (f.running) throw MUnspec{};  // a load of a file from within its own first evaluation is not specified
    bool ns = a.size() > 1 && a[1].is_obj();
    if (f.parsed && f.ok && !ns) {
      // evaluated only in namespaces so far: whether a shared load evaluates it is not specified
      if (!f.shared_ok) throw MUnspec{};
      S.probe("load_skipped");
      return MVal();
    }
    if (!f.parsed) {
      if (w.openpos >= disk::open_log.size()) throw MDiverged{};
      auto rec = disk::open_log[w.openpos++];
      if (rec.first != FN[i]) throw MDiverged{};
      if (rec.second || !f.on_disk) throw MErr{"read"};
      if (!f.good) throw MErr{"parse"};
      f.parsed = true;
    } else S.probe(f.ok ? "evaluated_again_in_namespace" : "failed_file_evaluated_again");
    if (ns) { m.scopes.emplace_back(); m.scope_obj.push_back(a[1].ref); S.probe("namespace_load"); }
    size_t k = m.scopes.size();
    bool first = f.running = !f.ok && !f.failed;
    struct G { Model &m; LFile &f; bool ns, first; size_t k; ~G() { if (first) f.running = false; if (ns) { m.scopes.resize(k - 1); m.scope_obj.resize(k - 1); } } } g{m, f, ns, first, k};
    if (f.active) S.probe("file_loaded_within_itself");
    struct A { int &n; A(int &x) : n(x) { n++; } ~A() { n--; } } act{f.active};
    try { m.run(f.prog); }
    catch (MErr &) { f.ok = false; f.failed = true; throw; }
    f.ok = true;
    f.failed = false;
    if (!ns) f.shared_ok = true;
    return MVal();
  };
}
static void run08(const Plan &p) {
  W08 w;
  Engine &e = w.e;
  Model &m = w.m;
  S.armed = false;
  e.create();
  host_bind_model(m);
  host_bind_cp(m, &e);
  bind_load(w);
  if (p.get("boot")) {  // a file is the first thing the engine runs
    LFile &f = w.f[BOOT];
    f.prog = {st(call(V("emit"), {T("eval boot")})), let("vboot", N(7))};
    f.on_disk = f.parsed = f.ok = f.shared_ok = true;
    disk::put(FN[BOOT], print_program(f.prog));
    m.run(f.prog);
    if (mjs_exec_file(e.m, FN[BOOT], nullptr) != MJS_OK) S.fail("prelude", "the first file failed");
    check_trace(e, m, "boot.js");
    S.probe("first_code_is_a_file");
  }
  run_prelude(e, m);
  std::vector<Node *> pre = {let("cnt_all", N(0)), let("ns0", obj()), let("ns1", obj({"v3"}, {T("own")})), let("ns2", obj())};
  m.run(pre);
  if (e.exec(print_program(pre)) != MJS_OK) S.fail("prelude", "prelude failed");
  Rng fr((uint64_t) p.get("files"));
  auto put = [&](int i, int ver, bool bad) {
    LFile &f = w.f[i];
    f.prog = make_file(fr, i, ver);
    f.good = !bad;
    f.on_disk = true;
    if (S.verbose) printf("--- %s%s\n%s", FN[i], bad ? " (broken)" : "", print_program(f.prog).c_str());
    disk::put(FN[i], (bad ? "let = = 5;\n" : "") + print_program(f.prog));
  };
  for (int i = 0; i < NF; i++) if (!w.f[i].parsed && !(p.get("missing") >> i & 1)) put(i, 0, p.get("bad") >> i & 1);
  S.armed = true;
  static const double GC[] = {0, 0.02, 0.2, 0}, FA[] = {0, 0.05, 0.2, 0.4}, OP[] = {0, 0, 0.15};
  S.rate[F_GC] = GC[p.get("gc")];
  S.rate[F_GC_HOST] = p.get("gc") ? 0.2 : 0;
  S.rate[F_FAIL_HOST] = FA[p.get("fail")];
  S.rate[F_OPEN] = OP[p.get("openfail")];
  disk::faults = true;
  disk::open_log.clear();
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    Rng r((uint64_t) op.a[1]);
    S.log("%s", op.name.c_str());
    std::string src;
    int ef = -1, mf = -1;
    auto both = [&](const std::vector<Node *> &prog, bool file) {
      src = print_program(prog);
      if (S.verbose) printf("%s\n", src.c_str());
      if (file) {
        std::string fn = strf("main%d.js", op.id);
        disk::put(fn, src);
        disk::faults = false;
        // only nested opens are faulted: the first open is the main file's
        size_t before = disk::open_log.size();
        disk::faults = true;
        double keep = S.rate[F_OPEN];
        ef = mjs_exec_file(e.m, fn.c_str(), nullptr) != MJS_OK;
        S.rate[F_OPEN] = keep;
        if (w.openpos < disk::open_log.size() && disk::open_log[before].first == fn) {
          w.openpos++;
          if (disk::open_log[before].second) { mf = 1; return; }
        }
      } else ef = e.exec(src) != MJS_OK;
      mf = 0;
      try { m.run(prog); }
      catch (MErr &) { mf = 1; }
      catch (MDiverged &) { mf = 2; }
      catch (MUnspec &) { mf = 3; }
    };
    if (op.name == "main") both(make_main(r, m), false);
    else if (op.name == "file") both(make_main(r, m), true);
    else if (op.name == "call") {
      std::string n = strf("fn%d", (int) op.a[0]);
      MVal *f = m.global(n);
      if (!f || f->t != M_FN) continue;
      mjs_val_t res = mjs_mk_undefined();
      src = "mjs_call of " + n;
      ef = mjs_call(e.m, &res, e.global(n.c_str()), mjs_mk_undefined(), 1, mjs_mk_number(e.m, 5)) != MJS_OK;
      mf = 0;
      try { m.call(*f, MVal(), {MVal::num(5)}); }
      catch (MErr &) { mf = 1; m.scopes.clear(); m.scope_obj.clear(); m.depth = 0; m.cur_this = MVal(); }
      catch (MDiverged &) { mf = 2; }
      catch (MUnspec &) { mf = 3; }
    } else if (op.name == "repair") {
      LFile &f = w.f[op.a[0]];
      if (f.parsed || (f.on_disk && f.good)) continue;
      put((int) op.a[0], op.id, false);
      S.probe("broken_or_missing_file_repaired");
      continue;
    } else { mjs_gc(e.m, 1); continue; }
    if (mf == 3) {  // only what came before is compared, and the run ends
      for (size_t i = 0; i < m.trace.size(); i++)
        if (i >= e.trace.size() || e.trace[i] != m.trace[i]) S.fail("wrong-result", "event %zu differs | %s", i, esc(src, 2500).c_str());
      S.probe("ended_at_unspecified_load");
      break;
    }
    if (mf != 2 && (ef != mf)) {
      check_trace(e, m, src);
      S.fail(ef ? "spurious-error" : "missed-error", "engine %s, expected %s: %s | %s", ef ? "failed" : "succeeded", mf ? "failure" : "success", ef ? e.errtext().c_str() : "", esc(src, 2500).c_str());
    }
    if (mf == 1) { S.probe("script_failed"); if (S.verbose) printf("  ERR %s\n", e.errtext().c_str()); }
    check_trace(e, m, src);
    if (mf == 2) S.fail("wrong-loads", "the engine did not read or run what it had to | %s", esc(src, 2500).c_str());
    if (e.cppos != e.cplog.size() || w.openpos != disk::open_log.size()) S.fail("wrong-loads", "the engine passed %zu checkpoints and %zu file opens, expected %zu and %zu | %s", e.cplog.size(), disk::open_log.size(), e.cppos, w.openpos, esc(src, 2500).c_str());
    check_globals(e, m, src);
    if (disk::open_handles()) S.fail("handle-leak", "a file stayed open");
    S.sh->ops_done++;
  }
  S.armed = false;
  e.destroy();
}
static Reg reg08("P08", plan08, run08);
