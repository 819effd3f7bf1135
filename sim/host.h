// The embedding program: one Engine wraps one mjs instance together with the
// host functions scripts call, and the reference model's versions of them.
#pragma once
#include "model.h"

enum { NSLOT = 6 };
struct CbReg { int kind; void *fn; void *ud; };

struct Engine {
  struct mjs *m = nullptr;
  int id = 0;
  std::vector<std::string> trace;
  std::set<std::string> skip;        // names not part of the compared global state
  mjs_val_t slot[NSLOT];             // owned by the host
  std::map<std::string, std::string> modules;
  bool gc_in_host = true, emit_fails = false;
  std::vector<int> cplog;            // what each checkpoint decided, in order
  uint64_t swallowed = 0;            // failures htry() has seen
  size_t cppos = 0;                  // how many the model has replayed

  void create(bool own = true);
  void own_slots();
  void destroy();
  std::string dump(mjs_val_t v, int maxnodes = 400);
  std::string dump_globals(int maxnodes = 4000, const std::vector<std::pair<std::string, mjs_val_t>> *extra = nullptr);
  mjs_err_t exec(const std::string &src, mjs_val_t *res = nullptr) { return mjs_exec(m, src.c_str(), res); }
  mjs_val_t global(const char *n) { return mjs_get(m, mjs_get_global(m), n, ~0); }
  std::string errtext() { const char *e = mjs_strerror(m, MJS_OK); return e ? e : ""; }
  void maybe_host_gc();
};
extern std::function<void(Engine *)> on_host_call;   // extra action inside host functions
extern std::map<struct mjs *, Engine *> engines;
Engine *eng_of(struct mjs *m);
void host_bind_model(Model &m, const std::set<std::string> *loads = nullptr);  // installs the model's versions
void host_bind_cp(Model &m, Engine *e);  // the model's checkpoints follow the engine's decisions
extern const char *const HOST_NAMES[];
std::string val_render(struct mjs *m, mjs_val_t v, int maxnodes);
mjs_val_t mkstr(struct mjs *m, const std::string &s);
std::string getstr(struct mjs *m, mjs_val_t v);

// C functions scripts reach through ffi
void *host_dlsym(void *handle, const char *name);
