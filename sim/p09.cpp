// P09: the compiled-code cache never changes what a script does.
#include "common.h"

enum { NSC = 6 };
static const char *SP[NSC] = {"s0.js", "s1.js", "dir.with.js/s2.js", ".js", "s4.mjs", "s0.js.js"};
static const char *CP[NSC] = {"s0.jsc", "s1.jsc", "dir.with.js/s2.jsc", ".jsc", "s4.mjsc", "s0.js.jsc"};
struct Ver { std::vector<Node *> prog; std::string text; };
// a caching engine, its twin that never caches, and a model that bounds their work
struct Pair9 {
  Engine e, t;
  Model m;
  bool up = false;
};
static void plan09(Rng &r, Plan &p) {
  p.cfg["kinds"] = (int64_t) (r.chance(0.3) ? 0 : r.below(1 << 10));
  p.cfg["rate"] = (int64_t) r.below(3);
  p.cfg["fill"] = r.chance(0.5) ? 0xA5 : 0;
  p.cfg["gc"] = (int64_t) r.below(3);
  p.cfg["engines"] = r.range(1, 3);
  p.cfg["files"] = r.range(1, NSC);
  p.cfg["other"] = (int64_t) (r.chance(0.5) ? 0 : r.below(4));
  p.cfg["natural"] = (int64_t) r.below(2);
  static const char *K[] = {"run", "run", "run", "run", "run", "run", "call", "call", "call", "write", "write", "spoil", "spoil", "load", "ro", "full", "flag", "gc", "crash", "drop"};
  int n = (int) r.range(2, 16);
  for (int i = 0; i < n; i++) p.add(K[r.below(20)], {(int64_t) r.below(3), (int64_t) r.below(NSC), (int64_t) r.below(1u << 30), r.range(0, 7)});
}
static void run09(const Plan &p) {
  A.fill = (int) p.get("fill");
  int ne = (int) p.get("engines"), nf = (int) p.get("files");
  Model base;
  S.armed = false;
  Pair9 *P[3] = {};
  auto boot = [&](int i) {
    P[i] = new Pair9();
    Pair9 &x = *P[i];
    x.e.id = i;
    x.t.id = i;
    Model scratch;
    host_bind_model(scratch);
    x.e.create();
    run_prelude(x.e, scratch);
    host_bind_model(x.m);
    x.t.create();
    run_prelude(x.t, x.m);
    mjs_set_generate_jsc(x.e.m, 1);
  };
  {
    Engine tmp;
    host_bind_model(base);
    tmp.create();
    run_prelude(tmp, base);
    tmp.destroy();
  }
  for (int i = 0; i < ne; i++) boot(i);
  static const double RATE[] = {0.1, 0.4, 0.03}, GC[] = {0, 0.02, 0.2};
  static const FK KIND[] = {F_OPEN, F_READ_SHORT, F_READ_ERR, F_WRITE_SHORT, F_WRITE_ERR, F_CLOSE, F_STAT, F_MMAP, F_CRASH, F_SEEK};
  for (int i = 0; i < 10; i++) if (p.get("kinds") >> i & 1) S.rate[KIND[i]] = RATE[p.get("rate")];
  S.rate[F_CRASH] /= 3;
  S.rate[F_GC] = GC[p.get("gc")];
  S.rate[F_GC_HOST] = p.get("gc") ? 0.1 : 0;
  std::vector<Ver> vers;
  std::vector<std::string> olds;               // contents cache files had at some time
  int cur[NSC];
  auto write = [&](int k, uint64_t seed, int size, bool inplace) {
    Ver v;
    GenCfg c;
    c.stmts = size + 1;
    c.bigstr = Rng(seed).chance(0.2);
    c.natural = p.get("natural");
    Model g = base;
    Rng wr(seed ^ 77);
    if (cur[k] >= 0 && wr.chance(0.3)) {  // a new version that differs in its last statement only, and not in size
      v = vers[(size_t) cur[k]];
      S.probe("version_of_the_same_size");
    } else {
      v.prog = gen_program(seed, g, c, strf("g%d_", (int) vers.size()));
      v.text = print_program(v.prog) + "emit('version       ');\n";
    }
    size_t at = v.text.rfind("emit('version ");
    v.text.replace(at + 14, 6, strf("%06d", (int) vers.size()));
    if (v.text.size() < 4000 && wr.chance(0.15)) {  // long, with what matters at the end: versions differ only there
      std::string fill;
      for (int q = 0; q < 60; q++) fill += "if (false) { 'a literal that only makes the compiled code longer, and more so: 0123456789'; }\n";
      v.text = fill + v.text;
    }
    if (inplace) disk::overwrite(SP[k], v.text); else disk::put(SP[k], v.text);
    cur[k] = (int) vers.size();
    vers.push_back(v);
  };
  S.begin_op(0);
  for (int k = 0; k < NSC; k++) cur[k] = -1;
  for (int k = 0; k < nf; k++) write(k, (uint64_t) p.seed * 7 + (uint64_t) k, 4, false);
  // compares a caching engine with its twin after both did the same
  auto compare = [&](Pair9 &x, mjs_err_t e1, mjs_err_t e2, const std::string &r1, const std::string &r2, const std::string &what, const std::string &src) {
    std::string a = err_report(x.e, e1), b = err_report(x.t, e2);
    if (a != b) S.fail(e1 && !e2 ? "spurious-error" : !e1 && e2 ? "missed-error" : "wrong-error", "%s with caching reports '%s', without '%s' | %s", what.c_str(), esc(a, 400).c_str(), esc(b, 400).c_str(), esc(src, 2000).c_str());
    size_t n = std::min(x.e.trace.size(), x.t.trace.size());
    for (size_t i = 0; i < n; i++) if (x.e.trace[i] != x.t.trace[i]) S.fail("wrong-result", "%s, event %zu: %s | %s", what.c_str(), i, first_diff(x.e.trace[i], x.t.trace[i]).c_str(), esc(src, 2500).c_str());
    if (x.e.trace.size() != x.t.trace.size()) S.fail("wrong-events", "%s: %zu events with caching, %zu without | %s", what.c_str(), x.e.trace.size(), x.t.trace.size(), esc(src, 2500).c_str());
    if (r1 != r2) S.fail("wrong-result", "%s: value %s | %s", what.c_str(), first_diff(r1, r2).c_str(), esc(src, 2500).c_str());
    std::string s1 = engine_state(x.e), s2 = engine_state(x.t);
    if (s1 != s2) S.fail("wrong-state", "%s: %s | %s", what.c_str(), first_diff(s1, s2).c_str(), esc(src, 2500).c_str());
    S.state(fnvs(s1));
    x.e.trace.clear();
    x.t.trace.clear();
  };
  // runs what the model says will end; false if it would not
  auto ends = [&](Pair9 &x, const std::function<void(Model &)> &go) {
    Model t = x.m;
    t.fuel = 30000;
    try { go(t); } catch (MFuel &) { return false; } catch (MErr &) { t.scopes.clear(); t.scope_obj.clear(); t.cur_this = MVal(); t.depth = 0; }
    t.trace.clear();
    t.trace_eff.clear();
    x.m = t;
    return true;
  };
  auto die = [&](Rng &r) {
    S.probe("crash_and_restart");
    S.log("process crashes");
    AllocCfg keep = A;
    disk::crash();
    alloc_reset();
    A = keep;
    engines.clear();
    // files the engines were writing may be torn, also after a rename: nothing was synced
    for (auto &f : disk::list()) {
      bool src = false;
      for (int k = 0; k < NSC; k++) src |= f == SP[k];
      if (src || f.compare(0, 1, "l") == 0 || !r.chance(0.5)) continue;
      std::string d = disk::get(f);
      olds.push_back(d);
      size_t keepn = r.below(d.size() + 1);
      if (r.chance(0.5)) d.resize(keepn);
      else for (size_t i = keepn; i < d.size(); i++) d[i] = 0;
      disk::put(f, d);
    }
    bool ar = S.armed;
    S.armed = false;
    for (int i = 0; i < ne; i++) boot(i);
    S.armed = ar;
  };
  std::vector<std::string> loads;              // files made for load()
  // another process works on the same files: it moves its own caches into place, or removes some
  uint64_t turns = 0;
  Rng orng(p.seed * 77 + 5);
  static const double OTHER[] = {0, 0.02, 0.15, 0.4};
  S.rate[F_OTHER] = OTHER[p.get("other")];
  disk::other = [&] {
    turns++;
    int k = (int) orng.below((uint64_t) nf);
    std::string t = std::string(CP[k]) + ".tmp", c = disk::get(CP[k]);
    if (!c.empty()) olds.push_back(c);
    std::string d = orng.chance(0.3) || olds.empty() ? std::string(orng.below(300), (char) orng.below(256)) : orng.pick(olds);
    if (orng.chance(0.3) && !d.empty()) d[d.size() - 1 - orng.below(std::min<size_t>(d.size(), 40))] ^= 1;
    S.log("another process changes cache %d", k);
    switch (orng.below(5)) {
      case 0: disk::remove(CP[k]); break;
      case 1: disk::remove(t); break;
      case 2: disk::put(t, d); break;
      default: disk::put(CP[k], d);
    }
  };
  bool full = false;
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    int k = (int) op.a[1] % nf;
    Pair9 &x = *P[(size_t) op.a[0] % (size_t) ne];
    Rng r((uint64_t) op.a[2]);
    S.log("%s e%d f%d", op.name.c_str(), x.e.id, k);
    if (op.name == "write") { write(k, (uint64_t) op.a[2], (int) op.a[3], r.chance(0.5)); continue; }
    if (op.name == "gc") { mjs_gc(x.e.m, 1); continue; }
    if (op.name == "flag") { mjs_set_generate_jsc(x.e.m, r.chance(0.3) ? 0 : 1); continue; }
    if (op.name == "full") { full = !full; disk::space_left = full ? (int64_t) r.below(r.chance(0.5) ? 60 : 3000) : -1; continue; }
    if (op.name == "ro") { disk::set_ro(CP[k], r.chance(0.8)); continue; }
    if (op.name == "drop") { disk::remove(CP[k]); continue; }
    if (op.name == "crash") { die(r); continue; }
    std::string path = SP[k], cache = CP[k];
    bool load = op.name == "load";
    if (load && (loads.empty() || r.chance(0.6))) {
      std::string nm = strf("l%d.js", op.id);
      write(k, (uint64_t) op.a[2], (int) op.a[3], false);
      disk::put(nm, vers.back().text);
      loads.push_back(nm);
      if (r.chance(0.5)) disk::put(nm + "c", olds.empty() ? "junk" : r.pick(olds));
    }
    if (op.name == "spoil") {
      // some other program or an interrupted one left the cache file in any state
      std::string d = disk::get(CP[k]);
      if (!d.empty()) olds.push_back(d);
      for (int j = 0; j < nf; j++) if (j != k && r.chance(0.2) && disk::exists(CP[j])) d = disk::get(CP[j]);
      switch (r.below(9)) {
        case 8: d += std::string(r.below(12000), (char) r.below(256)); break;
        case 0: d.clear(); break;
        case 1: d.resize(r.below(d.size() + 1)); break;
        case 2: d += "x"; break;
        case 3: if (!d.empty()) d[r.below(d.size())] ^= (char) (1 + r.below(255)); break;
        case 4: d = "garbage"; break;
        case 5: if (!olds.empty()) d = r.pick(olds); break;
        case 6: { size_t n = r.below(d.size() + 1); for (size_t i = n; i < d.size(); i++) d[i] = 0; break; }
        default: d = std::string(4096, '\xff');
      }
      disk::put(CP[k], d);
      if (r.chance(0.15)) disk::set_ro(CP[k], true);
      continue;
    }
    // both engines run something
    std::function<void(Model &)> go;
    std::string what, src;
    std::vector<mjs_val_t> none;
    mjs_val_t r1 = mjs_mk_undefined(), r2 = mjs_mk_undefined();
    mjs_err_t e1, e2;
    Gen::Fn fn;
    std::vector<std::pair<char, std::string>> args;   // 'N' number or a variable's name
    if (op.name == "call") {
      GenCfg c;
      Gen g(r, x.m, c, "zz");
      std::vector<Gen::Fn> mine;
      for (auto &f : g.fns) if (f.name[0] == 'g' && f.name[1] != 'z') mine.push_back(f);
      if (mine.empty()) continue;
      fn = mine[r.below(mine.size())];
      std::vector<MVal> ma;
      bool ok = true;
      for (char t : fn.sig.substr(0, fn.sig.find('>'))) {
        Node *v = g.var(t);
        if (v) { ma.push_back(*x.m.global(v->s)); args.push_back({'V', v->s}); }
        else if (t == 'N') { ma.push_back(MVal::num(3)); args.push_back({'N', ""}); }
        else ok = false;
      }
      if (!ok) continue;
      MVal mf = *x.m.global(fn.name), self = *x.m.global("gz_o0");
      go = [=](Model &m) { m.call(mf, self, const_cast<std::vector<MVal> &>(ma)); };
      what = src = "host call of " + fn.name;
      S.probe("function_of_a_file_called");
    } else {
      const Ver *v = &vers[(size_t) cur[k]];
      std::string lp;
      if (load) {
        lp = r.pick(loads);
        std::string txt = disk::get(lp);
        for (auto &q : vers) if (q.text == txt) v = &q;
      }
      auto prog = v->prog;
      src = v->text;
      go = [prog](Model &m) { m.run(prog); };
      path = load ? lp : path;
      what = (load ? "load of " : "run of ") + path;
    }
    if (!ends(x, go)) continue;
    auto act = [&](Engine &e, mjs_val_t *res) -> mjs_err_t {
      if (op.name == "call") {
        std::vector<mjs_val_t> a;
        for (auto &q : args) a.push_back(q.first == 'N' ? mjs_mk_number(e.m, 3) : e.global(q.second.c_str()));
        return mjs_apply(e.m, res, e.global(fn.name.c_str()), e.global("gz_o0"), (int) a.size(), a.data());
      }
      if (load) return e.exec("load('" + path + "');", res);
      return mjs_exec_file(e.m, path.c_str(), res);
    };
    if (S.verbose) printf("---- %s\n%s\n", what.c_str(), src.c_str());
    for (int att = 0; att < 2; att++) {
      uint64_t f0 = 0, f1 = 0;
      for (int q = 0; q < F_N; q++) if (q != F_GC && q != F_GC_HOST) f0 += S.sh->fired[q];
      S.armed = true;
      disk::faults = att == 0;
      bool crashed = false;
      std::string before = engine_state(x.e);
      try { e1 = act(x.e, &r1); } catch (SimCrash &) { crashed = true; e1 = MJS_OK; }
      disk::faults = false;
      for (int q = 0; q < F_N; q++) if (q != F_GC && q != F_GC_HOST) f1 += S.sh->fired[q];
      if (crashed) { die(r); break; }
      std::string v1 = e1 ? "" : x.e.dump(r1);
      if (disk::open_handles()) S.fail("handle-leak", "%d file handles still open after %s", disk::open_handles(), what.c_str());
      if (e1 == MJS_FILE_READ_ERROR) {
        // the source itself could not be read: nothing may have happened
        if (f0 == f1) S.fail("spurious-error", "%s failed without any fault: %s | %s", what.c_str(), x.e.errtext().c_str(), esc(src, 1500).c_str());
        if (!x.e.trace.empty() || engine_state(x.e) != before) S.fail("partial-run", "%s failed to read the file but had effects", what.c_str());
        S.probe("source_unreadable");
        continue;
      }
      if (disk::mappings()) S.probe("runs_from_the_cache_file");
      if (f1 != f0) S.probe("ran_despite_faults");
      S.armed = false;
      e2 = act(x.t, &r2);
      compare(x, e1, e2, v1, e2 ? "" : x.t.dump(r2), what, src);
      S.armed = true;
      break;
    }
    S.sh->ops_done++;
  }
  S.armed = false;
  disk::faults = false;
  for (int i = 0; i < ne; i++) {
    P[i]->e.destroy();
    P[i]->t.destroy();
  }
  if (disk::open_handles()) S.fail("handle-leak", "handles left after destroy");
  if (disk::mappings()) S.fail("mapping-leak", "%d mappings left after destroy", disk::mappings());
  if (alloc_stat().live) S.fail("leak", "memory left after destroy: %s", alloc_live_desc().c_str());
}
static Reg reg09("P09", plan09, run09);
