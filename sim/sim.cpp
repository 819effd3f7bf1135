#include "sim.h"
#include <sanitizer/asan_interface.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

const char *const FK_NAME[F_N] = {"gc_at_instruction", "gc_in_host_call", "full_gc_in_host_call", "fail_at_instruction", "fail_in_host_call",
  "alloc_fails", "message_alloc_fails", "realloc_moves", "open_fails", "seek_fails", "tell_fails", "short_read", "read_error", "short_write",
  "write_error", "disk_full", "close_fails", "stat_fails", "mmap_fails", "crash", "switch_engine", "reentrant_work", "other_process", "object_changed", "loop_left", "switch_inside_instruction"};

Sim S;
AllocCfg A;
thread_local uint64_t tl_fails;
thread_local struct mjs *tl_engine;
bool alloc_faults = false, alloc_faults_file_open = false;
void (*sim_point)();
#define POINT() do { if (sim_point) sim_point(); } while (0)
std::function<void(struct mjs *)> on_before_op;
std::function<bool(struct mjs *)> on_after_op;
std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }

uint64_t fnv(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *) p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
std::string strf(const char *fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (n < (int) sizeof(buf)) return std::string(buf, n);
  std::string s(n + 1, 0);
  va_start(ap, fmt);
  vsnprintf(&s[0], n + 1, fmt, ap);
  va_end(ap);
  s.resize(n);
  return s;
}
std::string esc(const std::string &s, size_t max) {
  std::string r;
  for (unsigned char c : s) {
    if (r.size() > max) { r += "..."; break; }
    if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) r += strf("\\x%02x", c);
    else r += (char) c;
  }
  return r;
}

void Sim::begin_op(int id) {
  cur_op = id;
  sh->cur_op = id;
  steps_op = 0;
  memset(ord, 0, sizeof(ord));
}
bool Sim::decide(FK k, double p, int64_t *arg, int64_t argmax) {
  uint64_t o = ord[k]++;
  sh->asked[k]++;
  if (!replay) {
    if (p <= 0 || !frng.chance(p)) return false;
    int64_t a = argmax > 0 ? (int64_t) frng.below(argmax) : 0;
    if (arg) *arg = a;
    if (sh->nf < MAXF) sh->f[sh->nf++] = {cur_op, k, (int64_t) o, a};
    else sh->overflow = 1;
    sh->fired[k]++;
    return true;
  }
  auto it = rec.find({cur_op, (int) k});
  if (it == rec.end()) return false;
  for (auto &x : it->second)
    if (x.first == (int64_t) o) {
      if (arg) *arg = argmax > 0 ? x.second % argmax : 0;
      if (sh->nf < MAXF) sh->f[sh->nf++] = {cur_op, k, (int64_t) o, x.second};
      sh->fired[k]++;
      return true;
    }
  return false;
}
void Sim::log(const char *fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (n > (int) sizeof(buf) - 1) n = sizeof(buf) - 1;
  sh->hash = fnv(buf, n, sh->hash);
  sh->events++;
  if (verbose) fprintf(stdout, "  [op %d] %s\n", cur_op, buf), fflush(stdout);
}
void Sim::fail(const char *cls, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  snprintf(sh->vclass, sizeof(sh->vclass), "%s", cls);
  vsnprintf(sh->vmsg, sizeof(sh->vmsg), fmt, ap);
  va_end(ap);
  sh->viol = 1;
  if (verbose) printf("VIOLATION %s: %s\n", sh->vclass, sh->vmsg), fflush(stdout);
  _exit(77);
}
void Sim::probe(const char *name) {
  for (uint32_t i = 0; i < sh->nprobe; i++)
    if (!strcmp(sh->probe_name[i], name)) { sh->probes[i]++; return; }
  if (sh->nprobe < MAXPROBE) {
    snprintf(sh->probe_name[sh->nprobe], 40, "%s", name);
    sh->probes[sh->nprobe++] = 1;
  }
}
void Sim::state(uint64_t h) {
  if (sh->nst < MAXST) sh->st[sh->nst++] = h;
}

// ---------------------------------------------------------------- hooks
extern "C" int mjs_sim_before_op(struct mjs *mjs) {
  if (!S.sh) return 0;
  S.sh->steps++;
  tl_engine = mjs;
  if (++S.steps_op > S.max_steps_op) S.fail("no-progress", "operation did not finish within %llu simulated instructions", (unsigned long long) S.max_steps_op);
  if (on_before_op) on_before_op(mjs);
  if (!S.armed) return 0;
  return S.decide(F_GC);
}
extern "C" int mjs_sim_after_op(struct mjs *mjs) {
  if (!S.sh) return 0;
  if (on_after_op && on_after_op(mjs)) { tl_fails++; return 1; }
  if (!S.armed) return 0;
  if (!S.decide(F_FAIL_OP)) return 0;
  tl_fails++;
  return 1;
}

// ---------------------------------------------------------------- allocator
struct Blk { size_t n; uint64_t born; size_t cap; };   // born: moves with a block when it is resized; cap: n plus room to grow
static std::unordered_map<void *, Blk> &live() { static auto *m = new std::unordered_map<void *, Blk>(); return *m; }
static std::unordered_map<size_t, std::vector<void *>> &pool() { static auto *m = new std::unordered_map<size_t, std::vector<void *>>(); return *m; }
static uint64_t live_bytes, peak_bytes, total_allocs, failed_allocs, alloc_young;
extern bool alloc_spare;
extern double alloc_text_rate;
extern uint64_t alloc_text_failed;
int64_t alloc_nth = -1;
uint64_t alloc_peak() { return peak_bytes; }
void alloc_peak_reset() { peak_bytes = live_bytes; }
void alloc_mark() { alloc_young = total_allocs; }
AllocStat alloc_stat() { return {live().size(), live_bytes, total_allocs, failed_allocs}; }
std::string alloc_live_desc() {
  std::multiset<size_t> sz;
  for (auto &x : live()) sz.insert(x.second.n);
  std::string r = strf("%zu blocks, %llu bytes, sizes:", live().size(), (unsigned long long) live_bytes);
  int n = 0;
  for (size_t s : sz) { r += strf(" %zu", s); if (++n > 12) break; }
  return r;
}
void alloc_reset() {
  live().clear();
  for (auto &c : pool()) for (void *p : c.second) { __asan_unpoison_memory_region(p, c.first); free(p); }
  pool().clear();
  live_bytes = peak_bytes = total_allocs = failed_allocs = alloc_young = 0;
  alloc_nth = -1;
  alloc_spare = false;
  alloc_text_rate = -1;
  alloc_text_failed = 0;
  A = AllocCfg();
  alloc_faults = alloc_faults_file_open = false;
}
static void note(void *p, size_t n, size_t cap, uint64_t born = total_allocs) {
  live()[p] = {n, born, cap};
  live_bytes += n;
  if (live_bytes > peak_bytes) peak_bytes = live_bytes;
  if (cap > n) __asan_poison_memory_region((char *) p + n, cap - n);
  if (live_bytes > (512u << 20)) S.fail("memory-runaway", "engine holds more than 512 MB");
}
static bool alloc_fault() {
  if (!alloc_faults || !S.sh || !S.armed || (alloc_faults_file_open && !disk::open_handles())) return false;
  double p = S.rate[F_ALLOC];
  if (alloc_nth >= 0) p = alloc_nth-- == 0 ? 1 : 0;
  if (!S.decide(F_ALLOC, p)) return false;
  failed_allocs++;
  return true;
}
// a block of n bytes, its contents as the configuration says
static void *fresh(size_t n, bool zero, uint64_t born) {
  size_t cap = n + A.slack;
  void *p = nullptr;
  if (A.reuse) {
    cap = (cap + 31) & ~(size_t) 31;
    auto it = pool().find(cap);
    if (it != pool().end() && !it->second.empty()) {
      p = it->second.back();
      it->second.pop_back();
      __asan_unpoison_memory_region(p, cap);
      if (S.sh) S.probe("released_block_handed_out_again");
    }
  }
  if (!p) p = malloc(cap);
  if (!p) return nullptr;
  if (zero) memset(p, 0, n);
  else if (A.fill >= 0) memset(p, A.fill, n);
  note(p, n, cap, born);
  return p;
}
static void drop(std::unordered_map<void *, Blk>::iterator it) {
  void *p = it->first;
  size_t cap = it->second.cap;
  live_bytes -= it->second.n;
  live().erase(it);
  if (A.reuse && cap % 32 == 0 && pool()[cap].size() < 64) {
    __asan_poison_memory_region(p, cap);
    pool()[cap].push_back(p);
    return;
  }
  __asan_unpoison_memory_region(p, cap);
  free(p);
}
bool alloc_spare = false;
double alloc_text_rate = -1;
uint64_t alloc_text_failed;
struct Spare { bool old = alloc_faults; Spare() { if (alloc_spare) alloc_faults = false; } ~Spare() { alloc_faults = old; } };
extern "C" {
void *__asan_memcpy(void *, const void *, size_t);
void *__asan_memmove(void *, const void *, size_t);
void *__asan_memset(void *, int, size_t);
void *sim___asan_memcpy(void *d, const void *s, size_t n) { POINT(); return __asan_memcpy(d, s, n); }
void *sim___asan_memmove(void *d, const void *s, size_t n) { POINT(); return __asan_memmove(d, s, n); }
void *sim___asan_memset(void *d, int c, size_t n) { POINT(); return __asan_memset(d, c, n); }
size_t sim_strlen(const char *s) { POINT(); return strlen(s); }
int sim_strcmp(const char *a, const char *b) { POINT(); return strcmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t n) { POINT(); return strncmp(a, b, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { POINT(); return memcmp(a, b, n); }
char *sim_strchr(const char *s, int c) { POINT(); return const_cast<char *>(strchr(s, c)); }
void *sim_memchr(const void *s, int c, size_t n) { POINT(); return const_cast<void *>(memchr(s, c, n)); }
// every edge of the engine's code, in the variant that is compiled to report them
void __sanitizer_cov_trace_pc(void) { POINT(); }
double sim_strtod(const char *s, char **e) { POINT(); return strtod(s, e); }
unsigned long sim_strtoul(const char *s, char **e, int b) { POINT(); return strtoul(s, e, b); }
}
void *sim_malloc(size_t n) {
  POINT();
  total_allocs++;
  if (n > (1ull << 32)) return nullptr;
  if (alloc_fault()) return nullptr;
  return fresh(n, false, total_allocs);
}
void *sim_calloc(size_t a, size_t b) {
  POINT();
  total_allocs++;
  if (alloc_fault()) return nullptr;
  return fresh(a * b, true, total_allocs);
}
// the engine's cell arenas: it ends the process when these fail, by design
void *sim_gc_calloc(size_t a, size_t b) {
  POINT();
  total_allocs++;
  return fresh(a * b, true, total_allocs);
}
void *sim_gc_malloc(size_t n) {
  POINT();
  total_allocs++;
  return fresh(n, false, total_allocs);
}
// growing buffers, and JSON scanning and printing: fail like any other, unless spared
void *sim_mbuf_malloc(size_t n) { Spare s; return sim_malloc(n); }
void *sim_mbuf_calloc(size_t a, size_t b) { Spare s; return sim_calloc(a, b); }
void *sim_mbuf_realloc(void *p, size_t n) { Spare s; return sim_realloc(p, n); }
void *sim_frozen_malloc(size_t n) { Spare s; return sim_malloc(n); }
void *sim_frozen_calloc(size_t a, size_t b) { Spare s; return sim_calloc(a, b); }
void *sim_frozen_realloc(void *p, size_t n) { Spare s; return sim_realloc(p, n); }
// texts of messages and stack traces
void *sim_text_malloc(size_t n) {
  POINT();
  if (alloc_text_rate >= 0) {
    total_allocs++;
    if (S.sh && S.armed && S.decide(F_ALLOC_TEXT, alloc_text_rate)) { alloc_text_failed++; return nullptr; }
    return fresh(n, false, total_allocs);
  }
  return sim_malloc(n);
}
void sim_free(void *p) {
  POINT();
  if (!p) return;
  auto it = live().find(p);
  if (it == live().end()) {
    S.fail("bad-free", "engine released a block it does not hold (double free or foreign pointer)");
  }
  drop(it);
}
void *sim_realloc(void *p, size_t n) {
  POINT();
  if (!p) return sim_malloc(n);
  if (n == 0) { sim_free(p); return nullptr; }
  total_allocs++;
  auto it = live().find(p);
  if (it == live().end()) S.fail("bad-free", "engine resized a block it does not hold");
  if (n > (1ull << 32)) return nullptr;
  uint64_t born = it->second.born;
  if (born >= alloc_young && alloc_fault()) return nullptr;
  size_t old = it->second.n, cap = it->second.cap;
  bool mv = A.move >= 1 ? true : S.sh ? S.decide(F_MOVE, A.move) : true;
  if (!mv && n <= cap) {
    // in place (keeps the address)
    live_bytes += n;
    live_bytes -= old;
    it->second.n = n;
    __asan_unpoison_memory_region(p, n);
    if (cap > n) __asan_poison_memory_region((char *) p + n, cap - n);
    if (n > old && A.fill >= 0) memset((char *) p + old, A.fill, n - old);
    return p;
  }
  void *q = fresh(n, false, born);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  it = live().find(p);
  drop(it);
  return q;
}

// ---------------------------------------------------------------- simulated disk
// A file's bytes live in a fixed region so that mappings see in-place changes,
// as a shared page cache does.
enum { INODE_CAP = 1 << 18 };
struct Inode {
  int fd;
  char *mem;
  size_t len = 0;
  bool ro = false;
  Inode() {
    fd = memfd_create("sim", 0);
    mem = fd < 0 ? (char *) MAP_FAILED : (char *) mmap(nullptr, INODE_CAP, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (mem == MAP_FAILED) { fprintf(stderr, "SIM-SETUP: memfd/mmap failed\n"); _exit(90); }
  }
  ~Inode() { munmap(mem, INODE_CAP); close(fd); }
  void setlen(size_t n) { if (ftruncate(fd, (off_t) n) != 0) _exit(90); len = n; }
  size_t write(size_t pos, const char *p, size_t n) {
    if (pos > INODE_CAP) return 0;
    if (pos + n > INODE_CAP) n = INODE_CAP - pos;
    if (pos + n > len) setlen(pos + n);
    memcpy(mem + pos, p, n);
    return n;
  }
};
struct SimFile {
  uint64_t magic;
  Inode *ino;
  size_t pos = 0;
  bool rd = false, wr = false, app = false, err = false, eof = false;
  std::string wbuf;  // stdio buffer: reaches the inode at flush/close
  bool open = true;
};
static std::map<std::string, Inode *> *g_dir;
static std::set<SimFile *> *g_open;
struct FdRec { Inode *ino; size_t pos; bool of_file; };
static std::map<int, FdRec> *g_fds;
static std::map<void *, std::pair<Inode *, size_t>> *g_maps;
static int g_nextfd;
static std::vector<Inode *> *g_inodes;
static Inode *new_inode() { Inode *i = new Inode(); g_inodes->push_back(i); return i; }
namespace disk {
bool faults = false;
int64_t space_left = -1;
bool write_through = false;
std::function<void()> other;
bool short_eof = false;
uint64_t read_bytes;
uint64_t nreads, nwrites, nopens;
std::vector<std::pair<std::string, bool>> open_log;
void reset() {
  open_log.clear();
  if (g_inodes) for (auto *i : *g_inodes) delete i;
  if (g_open) for (auto *f : *g_open) delete f;
  delete g_dir; delete g_open; delete g_fds; delete g_maps; delete g_inodes;
  g_inodes = new std::vector<Inode *>();
  nreads = nwrites = nopens = 0;
  g_dir = new std::map<std::string, Inode *>();
  g_open = new std::set<SimFile *>();
  g_fds = new std::map<int, FdRec>();
  g_maps = new std::map<void *, std::pair<Inode *, size_t>>();
  g_nextfd = 1000;
  faults = false;
  space_left = -1;
  write_through = false;
  other = nullptr;
  short_eof = false;
  read_bytes = 0;
}
static std::string norm(const std::string &p) {
  std::string q = p;
  while (q.compare(0, 2, "./") == 0) q = q.substr(2);
  return q;
}
void put(const std::string &path, const std::string &data) {
  Inode *i = new_inode();
  i->write(0, data.data(), data.size());
  (*g_dir)[norm(path)] = i;
}
void overwrite(const std::string &path, const std::string &data) {
  auto it = g_dir->find(norm(path));
  if (it == g_dir->end()) { put(path, data); return; }
  it->second->setlen(0);
  it->second->write(0, data.data(), data.size());
}
bool exists(const std::string &path) { return g_dir->count(norm(path)) != 0; }
std::string get(const std::string &path) {
  auto it = g_dir->find(norm(path));
  return it == g_dir->end() ? std::string() : std::string(it->second->mem, it->second->len);
}
void remove(const std::string &path) { g_dir->erase(norm(path)); }
void set_ro(const std::string &path, bool ro) { auto it = g_dir->find(norm(path)); if (it != g_dir->end()) it->second->ro = ro; }
int open_handles() { int n = (int) g_open->size(); for (auto &x : *g_fds) n += !x.second.of_file; return n; }
int mappings() { return (int) g_maps->size(); }
std::vector<std::string> list() { std::vector<std::string> r; for (auto &x : *g_dir) r.push_back(x.first); return r; }
void crash() {
  g_open->clear();
  g_fds->clear();
  g_maps->clear();
}
}  // namespace disk
using namespace disk;

// some other process gets its turn
static void others_turn() {
  if (!disk::other || !disk::faults || !S.sh || !S.armed || !S.decide(F_OTHER)) return;
  S.armed = false;
  disk::other();
  S.armed = true;
}
static bool flt(FK k) { return disk::faults && S.sh && S.armed && S.decide(k); }
static bool crash_point() { return disk::faults && S.sh && S.armed && S.decide(F_CRASH); }
static SimFile *mine(FILE *f) {
  if (!g_open) return nullptr;
  SimFile *s = (SimFile *) f;
  return g_open->count(s) ? s : nullptr;
}
// moves the stdio buffer to the file; returns bytes that reached it
static size_t flush_buf(SimFile *f) {
  size_t want = f->wbuf.size(), done = want;
  if (want == 0) return 0;
  nwrites++;
  if (crash_point()) {  // a prefix may have reached the disk
    int64_t cut = 0;
    S.decide(F_WRITE_SHORT, 1.0, &cut, (int64_t) want + 1);
    done = (size_t) cut;
    if (f->app) f->pos = f->ino->len;
    f->ino->write(f->pos, f->wbuf.data(), done);
    throw SimCrash();
  }
  if (flt(F_WRITE_ERR)) { f->err = true; errno = EIO; f->wbuf.clear(); return 0; }
  int64_t cut = 0;
  if (disk::faults && S.armed && S.decide(F_WRITE_SHORT, S.rate[F_WRITE_SHORT], &cut, (int64_t) want)) { done = (size_t) cut; f->err = true; errno = EIO; }
  if (space_left >= 0) S.sh->asked[F_ENOSPC]++;
  if (space_left >= 0 && (int64_t) done > space_left) { done = (size_t) space_left; f->err = true; errno = ENOSPC; S.sh->fired[F_ENOSPC]++; }
  if (space_left >= 0) space_left -= (int64_t) done;
  if (f->app) f->pos = f->ino->len;
  size_t w = f->ino->write(f->pos, f->wbuf.data(), done);
  if (w < done) { done = w; f->err = true; }
  f->pos += done;
  f->wbuf.clear();
  return done;
}
extern "C" {
FILE *sim_fopen(const char *path, const char *mode) {
  others_turn();
  if (!g_dir) { errno = ENOENT; return nullptr; }
  if (path == nullptr || mode == nullptr) S.fail("null-path", "a file was opened with a null path or mode");
  nopens++;
  bool of = flt(F_OPEN);
  std::string p = norm(path);
  open_log.push_back({p, of});
  if (of) { errno = EIO; return nullptr; }
  auto it = g_dir->find(p);
  bool rd = mode[0] == 'r', plus = strchr(mode, '+') != nullptr, excl = strchr(mode, 'x') != nullptr;
  Inode *ino = it == g_dir->end() ? nullptr : it->second;
  if (rd && !ino) { errno = ENOENT; return nullptr; }
  if (excl && ino) { errno = EEXIST; return nullptr; }
  if ((!rd || plus) && ino && ino->ro) { errno = EACCES; return nullptr; }
  if (!ino) { ino = new_inode(); (*g_dir)[p] = ino; }
  if (mode[0] == 'w') ino->setlen(0);
  SimFile *f = new SimFile();
  f->magic = 0x51F11E;
  f->ino = ino;
  f->rd = rd || plus;
  f->wr = !rd || plus;
  f->app = mode[0] == 'a';
  g_open->insert(f);
  S.log("fopen %s %s", p.c_str(), mode);
  return (FILE *) f;
}
int sim_fflush(FILE *fp) {
  SimFile *f = mine(fp);
  if (!f) return fflush(fp);
  flush_buf(f);
  return f->err ? EOF : 0;
}
int sim_fclose(FILE *fp) {
  SimFile *f = mine(fp);
  if (!f) { if (g_open) S.fail("bad-close", "a file handle that is not open was closed"); return fclose(fp); }
  f->err = false;   // earlier failures were reported by the calls that met them
  if (f->wr) flush_buf(f);
  bool bad = f->err || flt(F_CLOSE);
  g_open->erase(f);
  f->open = false;
  S.log("fclose");
  return bad && f->wr ? EOF : 0;
}
int sim_fseek(FILE *fp, long off, int wh) {
  SimFile *f = mine(fp);
  if (!f) return fseek(fp, off, wh);
  if (f->wr) flush_buf(f);
  if (flt(F_SEEK)) { errno = EIO; return -1; }
  f->pos = wh == SEEK_SET ? off : wh == SEEK_CUR ? f->pos + off : f->ino->len + off;
  f->eof = false;
  return 0;
}
void sim_rewind(FILE *fp) {
  SimFile *f = mine(fp);
  if (!f) { rewind(fp); return; }
  if (sim_fseek(fp, 0, SEEK_SET) == 0) f->err = false;
}
long sim_ftell(FILE *fp) {
  SimFile *f = mine(fp);
  if (!f) return ftell(fp);
  if (flt(F_TELL)) { errno = EIO; return -1; }
  return (long) (f->pos + f->wbuf.size());
}
size_t sim_fread(void *buf, size_t sz, size_t n, FILE *fp) {
  SimFile *f = mine(fp);
  if (!f) { if (g_open) S.fail("bad-handle", "read on a file handle that is not open"); return fread(buf, sz, n, fp); }
  nreads++;
  if (f->wr) flush_buf(f);
  size_t want = sz * n, have = f->pos < f->ino->len ? f->ino->len - f->pos : 0;
  if (!f->rd) { f->err = true; return 0; }
  if (want == 0) return 0;
  if (flt(F_READ_ERR)) { f->err = true; errno = EIO; return 0; }
  size_t got = want < have ? want : have;
  int64_t cut = 0;
  // a short read is an error, or (if asked for) looks like the end of the file: the file shrank after its size was taken
  if (disk::faults && S.armed && got > 0 && S.decide(F_READ_SHORT, S.rate[F_READ_SHORT], &cut, (int64_t) got * (disk::short_eof ? 2 : 1))) {
    if (cut >= (int64_t) got) { got = (size_t) cut - got; f->eof = true; }
    else { got = (size_t) cut; f->err = true; errno = EIO; }
  }
  memcpy(buf, f->ino->mem + f->pos, got);
  f->pos += got;
  read_bytes += got;
  if (got < want && !f->err) f->eof = true;
  return sz ? got / sz : 0;
}
size_t sim_fwrite(const void *buf, size_t sz, size_t n, FILE *fp) {
  SimFile *f = mine(fp);
  if (!f) {
    if (fp != stdout && fp != stderr && g_open) S.fail("bad-handle", "write on a file handle that is not open");
    return fwrite(buf, sz, n, fp);
  }
  if (!f->wr) { f->err = true; return 0; }
  f->wbuf.append((const char *) buf, sz * n);
  // stdio buffers: small writes only reach the file at flush; larger ones at once
  if (f->wbuf.size() >= 4096 || disk::write_through) { size_t w = f->wbuf.size(), d = flush_buf(f); if (d < w) return sz ? (sz * n > w - d ? (sz * n - (w - d)) / sz : 0) : 0; }
  return n;
}
int sim_fputc(int c, FILE *fp) {
  SimFile *f = mine(fp);
  if (!f) return fputc(c, fp);
  unsigned char ch = c;
  return sim_fwrite(&ch, 1, 1, fp) == 1 ? c : EOF;
}
int sim_ferror(FILE *fp) { SimFile *f = mine(fp); return f ? f->err : ferror(fp); }
int sim_feof(FILE *fp) { SimFile *f = mine(fp); return f ? f->eof : feof(fp); }
int sim_open(const char *path, int flags, ...) {
  others_turn();
  if (!g_dir) { errno = ENOENT; return -1; }
  nopens++;
  if (flt(F_OPEN)) { errno = EIO; return -1; }
  auto it = g_dir->find(norm(path));
  Inode *ino = it == g_dir->end() ? nullptr : it->second;
  if (!ino && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
  if (ino && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (ino && ino->ro && (flags & O_ACCMODE) != O_RDONLY) { errno = EACCES; return -1; }
  if (!ino) { ino = new_inode(); (*g_dir)[norm(path)] = ino; }
  if (flags & O_TRUNC) ino->setlen(0);
  int fd = g_nextfd++;
  (*g_fds)[fd] = {ino, 0, false};
  S.log("open %s", path);
  return fd;
}
int sim_close(int fd) {
  if (!g_fds || !g_fds->count(fd)) { errno = EBADF; return -1; }
  g_fds->erase(fd);
  return 0;
}
static int do_stat(Inode *i, struct stat *st) {
  memset(st, 0, sizeof(*st));
  st->st_mode = S_IFREG | 0644;
  st->st_size = (off_t) i->len;
  return 0;
}
int sim_fstat(int fd, struct stat *st) {
  if (!g_fds || !g_fds->count(fd)) { errno = EBADF; return -1; }
  if (flt(F_STAT)) { errno = EIO; return -1; }
  return do_stat((*g_fds)[fd].ino, st);
}
int sim_stat(const char *path, struct stat *st) {
  others_turn();
  if (!g_dir || !g_dir->count(norm(path))) { errno = ENOENT; return -1; }
  if (flt(F_STAT)) { errno = EIO; return -1; }
  return do_stat((*g_dir)[norm(path)], st);
}
void *sim_mmap(void *, size_t len, int, int, int fd, off_t) {
  others_turn();
  if (!g_fds || !g_fds->count(fd)) { errno = EBADF; return MAP_FAILED; }
  if (len == 0) { errno = EINVAL; return MAP_FAILED; }
  if (flt(F_MMAP)) { errno = ENOMEM; return MAP_FAILED; }
  Inode *i = (*g_fds)[fd].ino;
  void *p = mmap(nullptr, len, PROT_READ, MAP_SHARED, i->fd, 0);
  if (p == MAP_FAILED) return p;
  (*g_maps)[p] = {i, len};
  S.log("mmap %zu", len);
  return p;
}
int sim_munmap(void *p, size_t n) {
  if (!g_maps || !g_maps->count(p)) S.fail("bad-unmap", "unmapping something that is not mapped");
  if ((n + 4095) / 4096 != ((*g_maps)[p].second + 4095) / 4096) S.fail("bad-unmap", "a mapping of %zu bytes was unmapped with the length %zu", (*g_maps)[p].second, n);
  munmap(p, (*g_maps)[p].second);
  g_maps->erase(p);
  return 0;
}
ssize_t sim_read(int fd, void *buf, size_t n) {
  if (!g_fds || !g_fds->count(fd)) { errno = EBADF; return -1; }
  FdRec &r = (*g_fds)[fd];
  nreads++;
  if (flt(F_READ_ERR)) { errno = EIO; return -1; }
  size_t have = r.pos < r.ino->len ? r.ino->len - r.pos : 0, got = n < have ? n : have;
  int64_t cut = 0;
  if (disk::faults && S.armed && got > 1 && S.decide(F_READ_SHORT, S.rate[F_READ_SHORT], &cut, (int64_t) got - 1)) got = (size_t) cut + 1;
  memcpy(buf, r.ino->mem + r.pos, got);
  r.pos += got;
  return (ssize_t) got;
}
ssize_t sim_write(int fd, const void *buf, size_t n) {
  if (!g_fds || !g_fds->count(fd)) { if (fd < 3) return write(fd, buf, n); errno = EBADF; return -1; }
  FdRec &r = (*g_fds)[fd];
  nwrites++;
  if (crash_point()) {
    int64_t cut = 0;
    S.decide(F_WRITE_SHORT, 1.0, &cut, (int64_t) n + 1);
    r.ino->write(r.pos, (const char *) buf, (size_t) cut);
    throw SimCrash();
  }
  if (flt(F_WRITE_ERR)) { errno = EIO; return -1; }
  size_t done = n;
  int64_t cut = 0;
  if (disk::faults && S.armed && n > 1 && S.decide(F_WRITE_SHORT, S.rate[F_WRITE_SHORT], &cut, (int64_t) n - 1)) done = (size_t) cut + 1;
  if (space_left >= 0) S.sh->asked[F_ENOSPC]++;
  if (space_left >= 0 && (int64_t) done > space_left) { done = (size_t) space_left; S.sh->fired[F_ENOSPC]++; if (done == 0 && n) { errno = ENOSPC; return -1; } }
  if (space_left >= 0) space_left -= (int64_t) done;
  done = r.ino->write(r.pos, (const char *) buf, done);
  r.pos += done;
  return (ssize_t) done;
}
off_t sim_lseek(int fd, off_t off, int wh) {
  if (!g_fds || !g_fds->count(fd)) { errno = EBADF; return -1; }
  if (flt(F_SEEK)) { errno = EIO; return -1; }
  FdRec &r = (*g_fds)[fd];
  r.pos = (size_t) (wh == SEEK_SET ? off : wh == SEEK_CUR ? (off_t) r.pos + off : (off_t) r.ino->len + off);
  return (off_t) r.pos;
}
int sim_fileno(FILE *fp) {
  SimFile *f = mine(fp);
  if (!f) return fileno(fp);
  for (auto &x : *g_fds) if (x.second.of_file && x.second.ino == f->ino) return x.first;
  int fd = g_nextfd++;
  (*g_fds)[fd] = {f->ino, 0, true};
  return fd;
}
int sim_fsync(int fd) { if (!g_fds || !g_fds->count(fd)) { errno = EBADF; return -1; } return 0; }
int sim_access(const char *path, int) { if (g_dir && g_dir->count(norm(path))) return 0; errno = ENOENT; return -1; }
int sim_fgetc(FILE *fp) { unsigned char c; return sim_fread(&c, 1, 1, fp) == 1 ? c : EOF; }
int sim_fputs(const char *t, FILE *fp) {
  SimFile *f = mine(fp);
  if (!f) return fputs(t, fp);
  size_t n = strlen(t);
  return sim_fwrite(t, 1, n, fp) == n ? 0 : EOF;
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
int sim_open64(const char *p, int fl, ...) { return sim_open(p, fl, 0644); }
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
int sim_stat64(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
void *sim_mmap64(void *a, size_t l, int p, int fl, int fd, off_t o) { return sim_mmap(a, l, p, fl, fd, o); }
int sim_fseeko(FILE *f, off_t o, int w) { return sim_fseek(f, (long) o, w); }
off_t sim_ftello(FILE *f) { return sim_ftell(f); }
char *sim_strdup(const char *t) { size_t n = strlen(t) + 1; char *p = (char *) sim_malloc(n); if (p) memcpy(p, t, n); return p; }
char *sim_strndup(const char *t, size_t k) { size_t n = strnlen(t, k); char *p = (char *) sim_malloc(n + 1); if (p) { memcpy(p, t, n); p[n] = 0; } return p; }
int sim_remove(const char *path) {
  others_turn();
  if (!g_dir || !g_dir->count(norm(path))) { errno = ENOENT; return -1; }
  if (flt(F_WRITE_ERR)) { errno = EIO; return -1; }
  g_dir->erase(norm(path));
  S.log("remove %s", path);
  return 0;
}
int sim_unlink(const char *path) { return sim_remove(path); }
int sim_rename(const char *a, const char *b) {
  others_turn();
  if (!g_dir || !g_dir->count(norm(a))) { errno = ENOENT; return -1; }
  if (flt(F_WRITE_ERR)) { errno = EIO; return -1; }
  if (crash_point()) throw SimCrash();
  Inode *i = (*g_dir)[norm(a)];
  g_dir->erase(norm(a));
  (*g_dir)[norm(b)] = i;
  S.log("rename %s %s", a, b);
  others_turn();
  return 0;
}
}
