// simrun: runs seeds, replays and minimises. One forked process per run.
#include "host.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unordered_set>

static Shared *SH;
static int ERRFD = -1;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int CPU_LIMIT = 20;

struct Result { std::string cls, msg; uint64_t hash = 0; int op = 0; bool bad() const { return !cls.empty(); } };

static const Scenario *find(const std::string &id) {
  for (auto &s : scenarios()) if (id == s.id) return &s;
  fprintf(stderr, "unknown scenario %s\n", id.c_str());
  exit(2);
}
static void mkplan(const std::string &prop, uint64_t seed, Plan &p) {
  p.prop = prop; p.seed = seed;
  Rng r(seed * 1000003 + fnvs(prop) % 1000);
  find(prop)->plan(r, p);
}
static void on_xcpu(int) {
  snprintf(SH->vclass, sizeof(SH->vclass), "hang");
  snprintf(SH->vmsg, sizeof(SH->vmsg), "run used %d s of CPU without finishing", CPU_LIMIT);
  SH->viol = 1;
  _exit(77);
}
static void clear_shared() {
  memset(SH, 0, offsetof(Shared, f));
  SH->hash = 1469598103934665603ull;
}
static void prepare(const Plan &p, const std::vector<FaultRec> *faults, bool verbose) {
  S.plan = &p;
  S.verbose = verbose;
  S.frng = Rng(p.seed * 7919 + 17);
  memset(S.ord, 0, sizeof(S.ord));
  for (auto &x : S.rate) x = 0;
  S.rec.clear();
  S.replay = faults != nullptr;
  if (faults) for (auto &f : *faults) S.rec[{f.op, f.kind}].push_back({f.ord, f.arg});
  S.cur_op = 0;
  S.steps_op = 0;
  S.max_steps_op = 200000;
  S.armed = true;
  S.run_reset();
  struct itimerval it = {{0, 0}, {CPU_LIMIT, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
}
static void child_setup(bool verbose) {
  if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
  if (ERRFD >= 0) dup2(ERRFD, 2);
  signal(SIGPROF, on_xcpu);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  S.sh = SH;
}
// runs several seeds in one process; returns how many completed cleanly
static int run_batch(const std::vector<Plan> &ps) {
  clear_shared();
  if (ERRFD >= 0) { if (ftruncate(ERRFD, 0)) {} lseek(ERRFD, 0, SEEK_SET); }
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    child_setup(false);
    for (auto &p : ps) {
      uint64_t ops0 = SH->ops_done, f0 = 0, f1 = 0;
      for (auto x : SH->fired) f0 += x;
      SH->hash = 1469598103934665603ull;
      SH->nf = 0;
      SH->overflow = 0;
      prepare(p, nullptr, false);
      find(p.prop)->run(p);
      for (auto x : SH->fired) f1 += x;
      SH->br[SH->bdone] = {SH->hash, (uint32_t) (SH->ops_done - ops0), (uint32_t) (f1 - f0)};
      SH->bdone++;
    }
    SH->done = 1;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return SH->bdone;
}
static Result run_child(const Plan &p, const std::vector<FaultRec> *faults, bool verbose) {
  clear_shared();
  if (ERRFD >= 0) { if (ftruncate(ERRFD, 0)) {} lseek(ERRFD, 0, SEEK_SET); }
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    child_setup(verbose);
    prepare(p, faults, verbose);
    find(p.prop)->run(p);
    SH->done = 1;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Result r;
  r.hash = SH->hash;
  r.op = SH->cur_op;
  if (SH->viol) { r.cls = SH->vclass; r.msg = SH->vmsg; return r; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && SH->done) return r;
  // crashed: classify from stderr
  std::string err;
  if (ERRFD >= 0) {
    char buf[60000];
    ssize_t n = pread(ERRFD, buf, sizeof(buf), 0);
    if (n > 0) err.assign(buf, n);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 90) { fprintf(stderr, "simulator setup failure: %s\n", err.c_str()); exit(2); }
  size_t a = err.find("ERROR: AddressSanitizer: ");
  if (a != std::string::npos) {
    size_t e = err.find_first_of(" \n", a + 25);
    std::string kind = err.substr(a + 25, e - a - 25);
    r.cls = "memory-error:" + kind;
    std::istringstream is(err.substr(a));
    std::string line;
    int n = 0;
    while (std::getline(is, line) && n < 9) {
      if (line.find(" in ") != std::string::npos && line.find("#") != std::string::npos) { size_t q = line.find(" in "); r.msg += " <- " + line.substr(q + 4); n++; }
    }
  } else if ((a = err.find("Assertion `")) != std::string::npos) {
    size_t e = err.find("\n", a);
    size_t b0 = err.rfind("\n", a);
    r.cls = "assertion";
    r.msg = err.substr(b0 == std::string::npos ? 0 : b0 + 1, e - (b0 == std::string::npos ? 0 : b0 + 1));
  } else if (WIFSIGNALED(st)) {
    r.cls = strf("signal:%d", WTERMSIG(st));
    r.msg = "engine killed the process: " + esc(err, 300);
  } else {
    r.cls = strf("exit:%d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    r.msg = "unexpected process exit: " + esc(err, 300);
  }
  r.hash = fnvs(r.cls, r.hash);
  return r;
}

static std::vector<FaultRec> recorded() { return std::vector<FaultRec>(SH->f, SH->f + SH->nf); }

static void write_replay(const std::string &path, const Plan &p, const std::vector<FaultRec> &fs, const Result &r) {
  std::ofstream o(path);
  o << "# mjs simulation replay\nprop " << p.prop << "\nseed " << p.seed << "\nclass " << r.cls << "\n";
  o << "# " << esc(r.msg, 1500) << "\n";
  for (auto &c : p.cfg) o << "cfg " << c.first << " " << c.second << "\n";
  for (auto &op : p.ops) { o << "op " << op.id << " " << op.name; for (auto x : op.a) o << " " << x; o << "\n"; }
  for (auto &f : fs) o << "fault " << f.op << " " << FK_NAME[f.kind] << " " << f.ord << " " << f.arg << "\n";
}
static bool read_replay(const std::string &path, Plan &p, std::vector<FaultRec> &fs, std::string &cls) {
  std::ifstream in(path);
  if (!in) return false;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "prop") is >> p.prop;
    else if (k == "seed") is >> p.seed;
    else if (k == "class") is >> cls;
    else if (k == "cfg") { std::string n; int64_t v; is >> n >> v; p.cfg[n] = v; }
    else if (k == "op") { Op o; is >> o.id >> o.name; int64_t v; while (is >> v) o.a.push_back(v); p.ops.push_back(o); }
    else if (k == "fault") {
      FaultRec f; std::string n; is >> f.op >> n >> f.ord >> f.arg;
      f.kind = -1;
      for (int i = 0; i < F_N; i++) if (n == FK_NAME[i]) f.kind = i;
      if (f.kind >= 0) fs.push_back(f);
    }
  }
  return !p.prop.empty();
}

template <class T, class F> static void ddmin(std::vector<T> &v, F test, double deadline) {
  size_t chunk = v.size() / 2;
  if (v.size() == 1) chunk = 1;
  while (chunk >= 1 && now() < deadline) {
    bool any = false;
    for (size_t i = 0; i < v.size() && now() < deadline;) {
      std::vector<T> c(v.begin(), v.begin() + i);
      size_t e = std::min(v.size(), i + chunk);
      c.insert(c.end(), v.begin() + e, v.end());
      if (test(c)) { v = c; any = true; } else i = e;
    }
    if (chunk == 1 && !any) break;
    if (!any || chunk > v.size()) chunk = chunk > 1 ? chunk / 2 : (any ? 1 : 0);
    if (chunk > v.size()) chunk = v.size();
  }
}

// recorded findings (SIM_KNOWN): counted, not searched further
static std::map<std::string, uint64_t> known;
static std::string *known_match(const Result &r) {
  static std::string hit;
  for (auto &k : known) if (strf("class=%s msg=%s", r.cls.c_str(), r.msg.c_str()).find(k.first) != std::string::npos) { hit = k.first; return &hit; }
  return nullptr;
}
static void minimise(Plan &p, std::vector<FaultRec> &fs, Result &res, double budget) {
  double end = now() + budget;
  CPU_LIMIT = res.cls == "hang" ? 5 : 20;
  auto same = [&](const Plan &q, const std::vector<FaultRec> &f) { Result r = run_child(q, &f, false); if (r.cls == res.cls && !known_match(r)) { res = r; return true; } return false; };
  for (int round = 0; round < 3 && now() < end; round++) {
    size_t before = p.ops.size() + fs.size();
    ddmin(fs, [&](const std::vector<FaultRec> &c) { return same(p, c); }, end);
    ddmin(p.ops, [&](const std::vector<Op> &c) { Plan q = p; q.ops = c; return same(q, fs); }, end);
    // shrink numeric arguments that scenarios treat as sizes (all but seeds): try halving
    if (p.ops.size() + fs.size() == before) break;
  }
  // final fault list: only those that actually fire
  same(p, fs);
}

int main(int argc, char **argv) {
  // one address layout for every process, so address-dependent misbehaviour replays
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR")) {
    if (personality(per | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_ASLR", "1", 1); execv("/proc/self/exe", argv); }
  }
  SH = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ERRFD = memfd_create("err", 0);
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "search") {
    // search PROP first stride maxruns seconds outdir [stopfile]
    std::string prop = argv[2];
    uint64_t seed = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), maxr = strtoull(argv[5], 0, 10);
    double secs = atof(argv[6]);
    std::string out = argv[7];
    std::string stopf = argc > 8 ? argv[8] : "";
    double t0 = now();
    uint64_t runs = 0, steps = 0, ops = 0, simt = 0, events = 0, faulty = 0, dup_checks = 0, nondet = 0, batches = 0;
    uint64_t fired[F_N] = {0}, asked[F_N] = {0};
    std::map<std::string, uint64_t> probes;
    std::unordered_set<uint64_t> hashes, nontriv, states;
    std::vector<std::string> samples;
    std::string viol;
    int bsize = 1;
    auto account = [&]() {
      steps += SH->steps; ops += SH->ops_done; simt += SH->simtime; events += SH->events;
      for (int i = 0; i < F_N; i++) { fired[i] += SH->fired[i]; asked[i] += SH->asked[i]; }
      for (uint32_t i = 0; i < SH->nprobe; i++) probes[SH->probe_name[i]] += SH->probes[i];
      for (uint32_t i = 0; i < SH->nst; i++) if (states.size() < 4000000) states.insert(SH->st[i]);
    };
    auto sample = [&](const Plan &p) {
      if (samples.size() >= 2 || SH->nf == 0) return;
      std::string s = strf("seed %llu:", (unsigned long long) p.seed);
      for (auto &o : p.ops) { s += " " + o.name; for (auto x : o.a) s += "," + std::to_string(x); if (s.size() > 300) break; }
      s += " | faults:";
      for (uint32_t i = 0; i < SH->nf && i < 6; i++) s += strf(" %s@op%d#%lld", FK_NAME[SH->f[i].kind], SH->f[i].op, (long long) SH->f[i].ord);
      samples.push_back(s);
    };
    if (const char *k = getenv("SIM_KNOWN")) { std::istringstream is(k); std::string line; while (std::getline(is, line)) if (!line.empty()) known[line] = 0; }
    bool over = false;
    while (!over && runs < maxr && now() - t0 < secs) {
      if (!stopf.empty() && access(stopf.c_str(), F_OK) == 0) break;  // another worker found a violation
      std::vector<Plan> ps(bsize);
      for (auto &p : ps) { mkplan(prop, seed, p); seed += stride; }
      double tb = now();
      int n = run_batch(ps);
      double dt = now() - tb;
      account();
      runs += (uint64_t) n;
      for (int i = 0; i < n; i++) { hashes.insert(SH->br[i].hash); if (SH->br[i].nfault && SH->br[i].ops) { faulty++; nontriv.insert(SH->br[i].hash); } }
      sample(ps[n > 0 ? n - 1 : 0]);
      std::vector<BatchRes> br(SH->br, SH->br + n);
      if (n == bsize) {
        // standing determinism check: one of them again, alone in a fresh process
        if (++batches % 6 == 1) {
          dup_checks++;
          int k = (int) (batches / 6 % (uint64_t) n);
          Result r2 = run_child(ps[k], nullptr, false);
          if (r2.hash != br[k].hash || r2.bad()) { viol = strf("NONDET seed=%llu event logs differ between two runs (%s)", (unsigned long long) ps[k].seed, r2.cls.c_str()); if (++nondet > 20) break; }
        }
        if (dt < 0.25 && bsize < MAXBATCH) bsize = std::min((int) MAXBATCH, bsize * 2);
        else if (dt > 1.0 && bsize > 1) bsize /= 2;
        continue;
      }
      // the seed at index n did not complete: run it alone
      Plan p = ps[n];
      seed -= stride * (uint64_t) (bsize - n - 1);
      Result r = run_child(p, nullptr, false);
      runs++;
      if (r.bad()) {
        if (std::string *k = known_match(r)) { if (!known[*k]++) printf("KNOWN %s\n", k->c_str()); account(); continue; }
      }
      if (!r.bad()) {
        viol = strf("NONDET seed=%llu failed in a batch but not alone", (unsigned long long) p.seed);
        if (++nondet > 20) break;
        continue;
      }
      std::vector<FaultRec> fs = recorded();
      bool of = SH->overflow;
      // gate 1: the same seed again gives the same execution
      Result r2 = run_child(p, nullptr, false);
      bool det = r2.cls == r.cls;
      // gate 2: replaying the recorded faults gives the same violation
      Result r3 = run_child(p, &fs, false);
      bool rep = r3.cls == r.cls && !of;
      if (!det || !rep) {
        viol = strf("NONDET seed=%llu det=%d rep=%d cls=%s/%s/%s msg=%s", (unsigned long long) p.seed, det, rep, r.cls.c_str(), r2.cls.c_str(), r3.cls.c_str(), esc(r.msg, 600).c_str());
        if (++nondet > 20) break;
        continue;
      }
      if (!stopf.empty()) { int fd = open(stopf.c_str(), O_CREAT | O_WRONLY, 0644); if (fd >= 0) close(fd); }
      uint64_t vseed = p.seed;
      Result rr = r3;
      minimise(p, fs, rr, 60);
      std::string path = out + strf("/%s-%llu.replay", prop.c_str(), (unsigned long long) vseed);
      write_replay(path, p, fs, rr);
      viol = strf("VIOL seed=%llu replay=%s class=%s msg=%s", (unsigned long long) vseed, path.c_str(), rr.cls.c_str(), esc(rr.msg, 1500).c_str());
      over = true;
    }
    std::ofstream o(out + strf("/stats-%s-%s.txt", prop.c_str(), argv[3]));
    o << "runs " << runs << "\nsteps " << steps << "\nops " << ops << "\nsimtime " << simt << "\nevents " << events << "\nfaulty_runs " << faulty
      << "\nwall " << (now() - t0) << "\ndup_checks " << dup_checks << "\n";
    for (int i = 0; i < F_N; i++) if (asked[i]) o << "fault " << FK_NAME[i] << " " << fired[i] << " " << asked[i] << "\n";
    for (auto &x : probes) o << "probe " << x.first << " " << x.second << "\n";
    for (auto &s : samples) o << "sample " << s << "\n";
    if (!viol.empty()) o << "viol " << viol << "\n";
    o.close();
    std::ofstream hb(out + strf("/hash-%s-%s.bin", prop.c_str(), argv[3]), std::ios::binary);
    for (auto h : nontriv) hb.write((const char *) &h, 8);
    hb.close();
    std::ofstream sb(out + strf("/state-%s-%s.bin", prop.c_str(), argv[3]), std::ios::binary);
    for (auto h : states) sb.write((const char *) &h, 8);
    if (!viol.empty()) puts(viol.c_str());
    return viol.empty() ? 0 : viol[0] == 'V' ? 1 : 2;
  }
  if (mode == "one") {  // one PROP seed [-v]
    Plan p;
    mkplan(argv[2], strtoull(argv[3], 0, 10), p);
    bool v = argc > 4;
    Result r = run_child(p, nullptr, v);
    printf("hash %016llx class '%s' msg %s\n", (unsigned long long) r.hash, r.cls.c_str(), esc(r.msg, 3000).c_str());
    if (r.bad() && ERRFD >= 0 && v) { char b[6000]; ssize_t n = pread(ERRFD, b, sizeof b, 0); if (n > 0) fwrite(b, 1, n, stdout); }
    if (v) { for (uint32_t i = 0; i < SH->nf; i++) printf("fault op%d %s #%lld\n", SH->f[i].op, FK_NAME[SH->f[i].kind], (long long) SH->f[i].ord); }
    return r.bad();
  }
  if (mode == "hashes") {  // hashes PROP first n : one line per seed (determinism proof)
    uint64_t a = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10);
    for (uint64_t s = a; s < a + n; s++) { Plan p; mkplan(argv[2], s, p); Result r = run_child(p, nullptr, false); printf("%llu %016llx %s\n", (unsigned long long) s, (unsigned long long) r.hash, r.cls.c_str()); }
    return 0;
  }
  if (mode == "replay") {  // replay FILE [-v] : exit 1 if the violation class of the file is reproduced
    Plan p; std::vector<FaultRec> fs; std::string cls;
    if (!read_replay(argv[2], p, fs, cls)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
    bool v = argc > 3;
    Result r = run_child(p, &fs, v);
    printf("replay %s: class '%s' (file says '%s') hash %016llx\n%s\n", argv[2], r.cls.c_str(), cls.c_str(), (unsigned long long) r.hash, esc(r.msg, 3000).c_str());
    if (r.bad() && v) { char b[8000]; ssize_t n = pread(ERRFD, b, sizeof b, 0); if (n > 0) fwrite(b, 1, n, stdout); }
    return r.bad() ? (r.cls == cls ? 1 : 3) : 0;
  }
  fprintf(stderr, "usage: simrun search|one|hashes|replay ...\n");
  return 2;
}
