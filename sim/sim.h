// Deterministic simulator core: PRNG, fault decisions, event log, shared
// result block, allocator and disk stand-ins.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

extern "C" {
#include "mjs_array_public.h"
#include "mjs_core_public.h"
#include "mjs_exec_public.h"
#include "mjs_ffi_public.h"
#include "mjs_gc_public.h"
#include "mjs_object_public.h"
#include "mjs_primitive_public.h"
#include "mjs_string_public.h"
#include "mjs_util_public.h"
}

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t) below((uint64_t)(b - a + 1)); }
  bool chance(double p) { return (double) (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- faults
enum FK {
  F_GC, F_GC_HOST, F_GC_HOSTFULL, F_FAIL_OP, F_FAIL_HOST, F_ALLOC, F_ALLOC_TEXT, F_MOVE, F_OPEN, F_SEEK, F_TELL, F_READ_SHORT,
  F_READ_ERR, F_WRITE_SHORT, F_WRITE_ERR, F_ENOSPC, F_CLOSE, F_STAT, F_MMAP, F_CRASH, F_YIELD,
  F_REENTER, F_OTHER, F_MUTATE, F_LEAVE, F_MID, F_N
};
extern const char *const FK_NAME[F_N];

struct FaultRec { int32_t op, kind; int64_t ord, arg; };

struct Op { int id; std::string name; std::vector<int64_t> a; };
struct Plan {
  std::string prop;
  uint64_t seed = 0;
  std::map<std::string, int64_t> cfg;
  std::vector<Op> ops;
  int64_t get(const char *k, int64_t d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
  void add(const char *name, std::vector<int64_t> a) { ops.push_back({(int) ops.size() + 1, name, std::move(a)}); }
};

enum { MAXF = 60000, MAXPROBE = 64, MAXST = 65536, MAXBATCH = 32 };
struct BatchRes { uint64_t hash; uint32_t ops, nfault; };
struct Shared {
  int32_t done, viol, bdone;
  BatchRes br[MAXBATCH];
  uint64_t hash, steps, ops_done, simtime, events;
  uint64_t fired[F_N], asked[F_N];
  uint64_t probes[MAXPROBE];
  char probe_name[MAXPROBE][40];
  uint32_t nprobe;
  uint32_t nst;
  char vclass[96];
  char vmsg[6000];
  int32_t cur_op;
  uint32_t nf, overflow;
  FaultRec f[MAXF];
  uint64_t st[MAXST];
  uint32_t loglen;
  char log[1 << 16];
};

struct Sim {
  Shared *sh = nullptr;
  const Plan *plan = nullptr;
  bool replay = false, verbose = false;
  Rng frng{1};
  int cur_op = 0;
  uint64_t ord[F_N];
  double rate[F_N];
  std::map<std::pair<int, int>, std::vector<std::pair<int64_t, int64_t>>> rec;  // replay: (op,kind)->(ord,arg)
  uint64_t max_steps_op = 200000, steps_op = 0;
  bool armed = true;

  void begin_op(int id);
  void run_reset();  // forgets everything a previous run in this process left
  bool decide(FK k) { return decide(k, rate[k]); }
  bool decide(FK k, double p, int64_t *arg = nullptr, int64_t argmax = 0);
  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  void probe(const char *name);
  void state(uint64_t h);  // record a distinct-state sample
};
extern Sim S;
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnvs(const std::string &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
std::string esc(const std::string &s, size_t max = 200);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- allocator
struct AllocCfg {
  bool track = true;
  int fill = 0xA5;        // -1: leave as is
  double move = 1.0;      // probability a growing/shrinking realloc moves
  size_t slack = 0;       // room behind new blocks into which they can grow without moving
  bool reuse = false;     // a released block is handed out again for the next request of its size
};
extern AllocCfg A;
struct AllocStat { uint64_t live, live_bytes, total, failed; };
AllocStat alloc_stat();
uint64_t alloc_peak();      // most bytes held at once since the last alloc_peak_reset()
void alloc_peak_reset();
std::string alloc_live_desc();
void alloc_reset();
void alloc_mark();         // from now on, only blocks that come into being after this can fail to be resized
extern int64_t alloc_nth;  // >= 0: the allocation after so many others fails, whatever the rate
extern bool alloc_faults_file_open;  // ... and only while the engine has a file open
extern bool alloc_spare;         // F_ALLOC spares growing buffers and JSON scanning and printing
extern double alloc_text_rate;   // >= 0: texts of messages fail at this rate, as a kind of their own
extern uint64_t alloc_text_failed;
extern bool alloc_faults;  // F_ALLOC is consulted only while this is set
extern "C" void *sim_malloc(size_t), *sim_calloc(size_t, size_t), *sim_realloc(void *, size_t);
extern "C" void sim_free(void *);
extern "C" {
void *sim_gc_malloc(size_t), *sim_gc_calloc(size_t, size_t), *sim_text_malloc(size_t);
void *sim_mbuf_malloc(size_t), *sim_mbuf_calloc(size_t, size_t), *sim_mbuf_realloc(void *, size_t);
void *sim_frozen_malloc(size_t), *sim_frozen_calloc(size_t, size_t), *sim_frozen_realloc(void *, size_t);
}

// ---------------------------------------------------------------- disk
struct Inode;
namespace disk {
void reset();  // forgets everything, releases the previous run's files
void put(const std::string &path, const std::string &data);  // atomically, durable, new inode
bool exists(const std::string &path);
std::string get(const std::string &path);
void overwrite(const std::string &path, const std::string &data);  // in place, same inode
void remove(const std::string &path);
void set_ro(const std::string &path, bool ro);
int open_handles();
int mappings();
extern bool faults;         // consult F_* while set
extern int64_t space_left;  // -1 = unlimited
extern std::function<void()> other;  // what some other process may do between two calls of the engine (F_OTHER)
extern bool write_through;  // streams do not buffer what is written
extern bool short_eof;      // a short read may look like the end of the file (no error set)
extern uint64_t read_bytes; // delivered by fread
extern std::vector<std::pair<std::string, bool>> open_log;  // engine opens: (path, injected failure)
extern uint64_t nreads, nwrites, nopens;
std::vector<std::string> list();
// the process "dies": open handles and mappings vanish; un-flushed data is lost
void crash();
}  // namespace disk
struct SimCrash {};
extern "C" {
FILE *sim_fopen(const char *, const char *);
int sim_fclose(FILE *);
size_t sim_fread(void *, size_t, size_t, FILE *);
size_t sim_fwrite(const void *, size_t, size_t, FILE *);
int sim_remove(const char *);
int sim_rename(const char *, const char *);
}

// ---------------------------------------------------------------- engine step hooks
extern std::function<void(struct mjs *)> on_before_op;  // extra action before each instruction
extern std::function<bool(struct mjs *)> on_after_op;   // true: the instruction fails

extern void (*sim_point)();   // called wherever engine code calls the allocator or a string function of the C library

extern thread_local struct mjs *tl_engine;  // engine that executed an instruction last on this thread
extern thread_local uint64_t tl_fails;  // failures injected so far on this thread

// ---------------------------------------------------------------- scenarios
struct Scenario {
  const char *id;
  void (*plan)(Rng &r, Plan &p);
  void (*run)(const Plan &p);
};
extern std::vector<Scenario> &scenarios();
struct Reg { Reg(const char *id, void (*p)(Rng &, Plan &), void (*r)(const Plan &)) { scenarios().push_back({id, p, r}); } };
