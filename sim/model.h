// Reference model: a direct interpreter of the generated programs over a plain
// C++ heap. It has no collector, no stacks, no string buffer: only the meaning.
#pragma once
#include "sim.h"
#include <memory>

struct Node;
enum MT { M_UNDEF, M_NULL, M_BOOL, M_NUM, M_STR, M_OBJ, M_ARR, M_FN, M_HOST, M_FFI, M_PTR };
struct MVal {
  MT t = M_UNDEF;
  double n = 0;
  std::string s;        // string, or name of a host/ffi function
  int ref = -1;         // heap index
  const Node *fn = nullptr;
  static MVal num(double d) { MVal v; v.t = M_NUM; v.n = d; return v; }
  static MVal str(std::string x) { MVal v; v.t = M_STR; v.s = std::move(x); return v; }
  static MVal boolean(bool b) { MVal v; v.t = M_BOOL; v.n = b; return v; }
  static MVal null() { MVal v; v.t = M_NULL; return v; }
  static MVal host(const char *nm) { MVal v; v.t = M_HOST; v.s = nm; return v; }
  static MVal ffi(const std::string &nm) { MVal v; v.t = M_FFI; v.s = nm; return v; }
  static MVal ptr(const void *p) { MVal v; v.t = M_PTR; v.n = (double) (uintptr_t) p; return v; }
  bool is_obj() const { return t == M_OBJ || t == M_ARR; }
};
struct MObj {
  bool arr = false;
  std::vector<std::pair<std::string, MVal>> props;  // objects: newest first
  std::vector<MVal> el;                             // arrays
  MVal *find(const std::string &k) { for (auto &p : props) if (p.first == k) return &p.second; return nullptr; }
};

enum NK {
  // expressions
  E_NUM, E_STR, E_BOOL, E_NULL, E_UNDEF, E_VAR, E_DOT, E_IDX, E_BIN, E_AND, E_OR, E_NOT, E_COND, E_CALL, E_OBJ, E_ARRAY, E_FUNC, E_THIS, E_TYPEOF, E_ASSIGN, E_INCR,
  // statements
  S_LET, S_ASSIGN, S_OPASSIGN, S_INCR, S_EXPR, S_IF, S_FOR, S_WHILE, S_FORIN, S_BREAK, S_CONTINUE, S_RETURN, S_BLOCK, S_RAW
};
struct Node {
  NK k;
  double num = 0;
  std::string s;                 // name / operator / string
  std::vector<Node *> c;         // children
  std::vector<std::string> names;  // params or literal keys
  std::string sig;               // functions: types of params + return, e.g. "NS>N"
  int line = 0;                  // set by the printer
};
Node *mk(NK k, std::string s = "", std::vector<Node *> c = {});
Node *mknum(double d);

struct MErr { std::string msg; };
struct MStop {};   // effect limit reached
struct MFuel {};
struct MDiverged {};  // the engine did not get where the model is

struct Model {
  std::vector<MObj> heap;                     // heap[0] is the global object
  std::vector<std::string> trace;
  std::vector<uint64_t> trace_eff;            // effect number of each trace entry
  uint64_t effects = 0, limit = ~0ull, fuel = 400000;
  std::vector<std::vector<std::pair<std::string, MVal>>> scopes;  // above the global one
  std::vector<int> scope_obj;                 // unused entries are -1; load(ns) scopes refer to heap objects
  MVal cur_this;
  int slots_ref = -1;                         // array standing for the host's kept values
  int depth = 0;
  using Fn = std::function<MVal(Model &, const MVal &self, std::vector<MVal> &args)>;
  std::map<std::string, Fn> host;             // host and ffi functions by name

  Model() { heap.emplace_back(); }
  MVal new_obj() { heap.emplace_back(); MVal v; v.t = M_OBJ; v.ref = (int) heap.size() - 1; return v; }
  MVal new_arr() { heap.emplace_back(); heap.back().arr = true; MVal v; v.t = M_ARR; v.ref = (int) heap.size() - 1; return v; }
  void effect() { if (effects >= limit) throw MStop(); effects++; }
  void emit(const std::string &s) { effect(); trace.push_back(s); trace_eff.push_back(effects); }
  MVal get(const MVal &o, const std::string &key);
  void set(const MVal &o, const std::string &key, const MVal &v);
  void setraw(const MVal &o, const std::string &key, const MVal &v);  // not an effect
  struct Iter { int ref; std::vector<std::string> keys; };
  std::vector<Iter *> iters;                  // running for-in loops: keys still to visit, last first
  void del(const MVal &o, const std::string &key);
  MVal *global(const std::string &n) { return heap[0].find(n); }
  MVal call(const MVal &f, const MVal &self, std::vector<MVal> args);
  void run(const std::vector<Node *> &prog, MVal *last = nullptr);  // top-level program
  MVal eval(const Node *n);
  enum Flow { NEXT, BRK, CONT, RET };
  Flow exec(const Node *n);
  MVal retval;
  MVal *lookup(const std::string &n);
  void define(const std::string &n);
  void assign(const std::string &n, const MVal &v);
  // canonical rendering (sorted properties, ids for shared or cyclic objects)
  std::string dump(const MVal &v, int maxnodes = 400);
  std::string dump_globals(const std::set<std::string> &skip, int maxnodes = 4000, const std::vector<std::pair<std::string, MVal>> *extra = nullptr);
  std::string json(const MVal &v, std::vector<int> &stack, bool &skip);
  MVal parse_json(const std::string &s);
};
bool truthy(const MVal &v);

// printing to source text; one statement per line, sets Node::line
struct Printer {
  std::string out;
  int line = 1;
  void stmt(Node *n, int ind);
  std::string expr(Node *n, int ind);
  std::string prog(const std::vector<Node *> &p);
};
std::string print_program(const std::vector<Node *> &p);
