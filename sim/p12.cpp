// P12: the File library reports exactly what reached or left the disk.
#include "common.h"
#include <fstream>
#include <sstream>

static void plan12(Rng &r, Plan &p) {
  p.cfg["faults"] = (int64_t) r.below(4);
  p.cfg["gc"] = (int64_t) r.below(3);
  p.cfg["through"] = (int64_t) r.below(3);   // 0: buffered streams
  p.cfg["space"] = r.chance(0.3) ? r.range(0, 200) : -1;
  p.cfg["fill"] = r.chance(0.5) ? 0xA5 : 0;
  static const char *K[] = {"write", "write", "write", "write", "read", "read", "read", "remove", "rename", "copy", "chunks", "gc", "ro", "free", "put"};
  int n = (int) r.range(3, 20);
  for (int i = 0; i < n; i++) p.add(K[r.below(15)], {(int64_t) r.below(1u << 30), (int64_t) r.below(4), (int64_t) r.below(4)});
}
static void *resolve12(void *h, const char *n) {
  std::string s = n;
  if (s == "fopen") return (void *) sim_fopen;
  if (s == "fclose") return (void *) sim_fclose;
  if (s == "fread") return (void *) sim_fread;
  if (s == "fwrite") return (void *) sim_fwrite;
  if (s == "remove") return (void *) sim_remove;
  if (s == "rename") return (void *) sim_rename;
  return host_dlsym(h, n);
}
static const char *NAMES[] = {"a", "f.txt", "some/longer/path.dat", "five5"};
static std::string content(Rng &r) {
  size_t n = r.chance(0.15) ? r.below(3) : r.chance(0.5) ? r.below(30) : r.chance(0.04) ? 4000 + r.below(300) : r.below(300);
  std::string s;
  bool bin = r.chance(0.3);
  for (size_t i = 0; i < n; i++) s += bin ? (char) r.below(256) : (char) ('a' + (i + r.below(2)) % 26);
  return s;
}
static std::string placed(const std::string &old, const std::string &mode, const std::string &s) {
  if (mode[0] == 'w') return s;
  if (mode[0] == 'a') return old + s;
  return s + (old.size() > s.size() ? old.substr(s.size()) : "");
}
static void run12(const Plan &p) {
  A.fill = (int) p.get("fill");
  Engine e;
  S.armed = false;
  e.create();
  mjs_set_ffi_resolver(e.m, resolve12);
  static std::string lib;
  {
    std::ifstream f(REPO_DIR "/lib/api_file.js");
    std::stringstream ss;
    ss << f.rdbuf();
    lib = ss.str();
  }
  disk::put("api_file.js", lib);
  if (e.exec("load('api_file.js'); let go_s = '', go_p = '', go_q = '', go_m = '';"
             "let copy = function(from, to, n) { let a = File.fopen(from, 'r'); if (a === null) return 0 - 1; let b = File.fopen(to, 'w'); if (b === null) { File.fclose(a); return 0 - 2; }"
             "  let buf = '0123456789abcdef'; let t = 0, k = 0; while ((k = File.fread(buf, 1, n, a)) > 0) { let w = File.fwrite(buf, 1, k, b); t += w; if (w < k) { break; } } File.fclose(a); File.fclose(b); return t; };"
             "let chunks = function(path, n) { let a = File.fopen(path, 'r'); if (a === null) return null; let buf = '0123456789abcdef'; let r = '', k = 0; while ((k = File.fread(buf, 1, n, a)) > 0) { r = r + buf.slice(0, k); } File.fclose(a); return r; };") != MJS_OK)
    S.fail("prelude", "prelude failed: %s", e.errtext().c_str());
  static const double GC[] = {0, 0.03, 0.3}, FR[] = {0, 0.02, 0.1, 0.35};
  S.rate[F_GC] = GC[p.get("gc")];
  double fr = FR[p.get("faults")];
  for (FK k : {F_OPEN, F_READ_SHORT, F_READ_ERR, F_WRITE_SHORT, F_WRITE_ERR, F_CLOSE}) S.rate[k] = fr;
  S.rate[F_OPEN] = fr / 3;
  disk::write_through = p.get("through") != 0;
  disk::faults = true;
  S.armed = true;
  disk::space_left = p.get("space");
  std::map<std::string, bool> ro;
  auto set = [&](const char *n, const std::string &v) { mjs_set(e.m, mjs_get_global(e.m), n, ~0, mkstr(e.m, v)); };
  mjs_val_t res = mjs_mk_undefined();
  mjs_own(e.m, &res);
  auto fired = [&](FK k) { return S.sh->fired[k]; };
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    Rng r((uint64_t) op.a[0]);
    std::string path = NAMES[op.a[1]], other = NAMES[op.a[2]];
    const std::string &nm = op.name;
    S.log("%s %s", nm.c_str(), path.c_str());
    bool had = disk::exists(path);
    std::string old = had ? disk::get(path) : "";
    if (nm == "gc") { mjs_gc(e.m, 1); continue; }
    if (nm == "free") { disk::space_left = r.chance(0.5) ? -1 : r.range(0, 300); continue; }
    if (nm == "ro") { if (had) { ro[path] = !ro[path]; disk::set_ro(path, ro[path]); } continue; }
    if (nm == "put") { disk::put(path, content(r)); ro[path] = false; continue; }
    uint64_t open0 = fired(F_OPEN), close0 = fired(F_CLOSE), rd0 = fired(F_READ_SHORT) + fired(F_READ_ERR), wr0 = fired(F_WRITE_SHORT) + fired(F_WRITE_ERR) + fired(F_ENOSPC);
    set("go_p", path);
    set("go_q", other);
    res = mjs_mk_undefined();
    std::string s, mode, got;
    uint64_t rb0 = disk::read_bytes;
    mjs_err_t err;
    if (nm == "write") {
      s = content(r);
      mode = r.pick(std::vector<std::string>{"w", "w", "", "a", "a", "r+", "w+", "a+", "wb", "r", "wx"});
      set("go_s", s);
      set("go_m", mode);
      S.max_steps_op = 3000 + 150 * s.size();
      err = e.exec(mode.empty() ? "File.write(go_s, go_p);" : "File.write(go_s, go_p, go_m);", &res);
      if (mode.empty()) mode = "w";
    } else {
      S.max_steps_op = 20000 + 150 * (old.size() + (disk::exists(other) ? disk::get(other).size() : 0));
      int n = (int) r.range(1, 16);
      err = e.exec(nm == "read" ? "File.read(go_p);" : nm == "remove" ? "File.remove(go_p);" : nm == "rename" ? "File.rename(go_p, go_q);" : nm == "copy" ? strf("copy(go_p, go_q, %d);", n) : strf("chunks(go_p, %d);", n), &res);
    }
    if (err != MJS_OK) S.fail("spurious-error", "%s failed: %s", nm.c_str(), e.errtext().c_str());
    if (disk::open_handles()) S.fail("open-handle", "after %s %d file handles stayed open", nm.c_str(), disk::open_handles());
    bool openf = fired(F_OPEN) != open0, closef = fired(F_CLOSE) != close0, rdf = fired(F_READ_SHORT) + fired(F_READ_ERR) != rd0, wrf = fired(F_WRITE_SHORT) + fired(F_WRITE_ERR) + fired(F_ENOSPC) != wr0;
    bool num = mjs_is_number(res);
    double ret = num ? mjs_get_double(e.m, res) : -12345;
    bool now = disk::exists(path);
    std::string cur = now ? disk::get(path) : "";
    S.log("-> %s faults %d%d%d%d", esc(e.dump(res), 60).c_str(), openf, closef, rdf, wrf);
    S.state(fnvs(cur, fnvs(nm)));
    if (nm == "write") {
      bool cannot = openf || (mode[0] == 'r' && !had) || (mode == "wx" && had) || (had && ro[path] && mode != "r");
      if (!num) S.fail("wrong-count", "File.write returned %s", e.dump(res).c_str());
      if (cannot) {
        if (ret != 0) S.fail("wrong-count", "File.write returned %g although the file could not be opened", ret);
        if (now != had || cur != old) S.fail("wrong-bytes", "File.write changed a file it could not open");
        S.probe("write_could_not_open");
      } else {
        bool readonly = mode == "r";   // such a stream takes no data
        size_t k;
        for (k = s.size() + 1; k-- > 0;) if (placed(old, mode, s.substr(0, k)) == cur && !(readonly && k)) break;
        if (k == (size_t) -1) S.fail("wrong-bytes", "after File.write(%s, '%s') the file holds %s; it held %s", esc(s, 300).c_str(), mode.c_str(), esc(cur, 300).c_str(), esc(old, 300).c_str());
        bool full = !wrf && !readonly;
        if (full && placed(old, mode, s) != cur) S.fail("wrong-bytes", "without any fault File.write(%s, '%s') left %s; it held %s", esc(s, 300).c_str(), mode.c_str(), esc(cur, 300).c_str(), esc(old, 300).c_str());
        bool exact = disk::write_through || (!wrf && !closef);
        if (ret < 0 || ret > s.size() || ret != (double) (size_t) ret) S.fail("wrong-count", "File.write of %zu bytes returned %g", s.size(), ret);
        if (exact && !closef && (placed(old, mode, s.substr(0, readonly ? 0 : (size_t) ret)) != cur || (readonly && ret != 0))) S.fail("wrong-count", "File.write of %zu bytes returned %g, but %zu were stored", s.size(), ret, k);
        if (ret == s.size() && !s.empty() && (readonly || placed(old, mode, s) != cur)) S.fail("wrong-count", "File.write reported all %zu bytes, but %zu were stored", s.size(), k);
        if (ret == s.size() && !s.empty() && closef) S.fail("wrong-count", "File.write reported success although the file could not be closed");
        S.probe(k < s.size() ? "write_cut_short" : "write_complete");
      }
    } else {
      if (nm == "read" || nm == "chunks") {
        bool cannot = openf || !had;
        if (cur != old || now != had) S.fail("wrong-bytes", "%s changed the file", nm.c_str());
        if (cannot != mjs_is_null(res)) S.fail("wrong-bytes", "%s returned %s, the file %s opened", nm.c_str(), esc(e.dump(res)).c_str(), cannot ? "could not be" : "could be");
        if (!cannot) {
          if (!mjs_is_string(res)) S.fail("wrong-bytes", "%s returned %s", nm.c_str(), e.dump(res).c_str());
          got = getstr(e.m, res);
          size_t d = disk::read_bytes - rb0;
          if (!rdf && got != old) S.fail("wrong-bytes", "%s: %s", nm.c_str(), first_diff(got, old).c_str());
          if (got != old.substr(0, d < old.size() ? d : old.size())) S.fail("wrong-bytes", "%s after a read error: %s", nm.c_str(), first_diff(got, old.substr(0, d)).c_str());
          S.probe(rdf ? "read_with_error" : "read_whole");
        }
      } else if (nm == "remove") {
        if (!num || (ret == 0) != (had && !now)) S.fail("wrong-count", "File.remove returned %s, the file %s", e.dump(res).c_str(), had ? now ? "is still there" : "is gone" : "was not there");
        if (!had || !now) ro[path] = false;
      } else if (nm == "rename") {
        bool ok = had && disk::exists(other) && disk::get(other) == old && (path == other || !now);
        if (!num || (ret == 0 && !ok) || (ret != 0 && had && !now)) S.fail("wrong-count", "File.rename returned %s", e.dump(res).c_str());
        if (ret == 0 && path != other) { ro[other] = ro[path]; ro[path] = false; }
      } else if (!openf && had && path != other && !ro[other] && !rdf && !wrf) {   // copy
        if (ret != old.size() || !disk::exists(other) || disk::get(other) != old) S.fail("wrong-bytes", "a copy through the File library: %s", first_diff(disk::exists(other) ? disk::get(other) : "(none)", old).c_str());
        S.probe("copied");
      }
    }
    S.sh->ops_done++;
  }
  S.armed = false;
  mjs_disown(e.m, &res);
  e.destroy();
  if (alloc_stat().live) S.fail("leak", "memory left behind: %s", alloc_live_desc().c_str());
}
static Reg reg12("P12", plan12, run12);
