// Typed random program generator. Programs it makes are meaningful in the model
// and never fail by themselves unless asked to.
#pragma once
#include "model.h"

struct GenCfg {
  int stmts = 8;        // top-level statements
  int depth = 3;        // expression depth
  bool calls = true;    // script functions, apply, host calls
  bool ffi = true;
  bool json = true;
  bool gcs = true;      // explicit gc() calls
  bool bigstr = true;
  bool deep = true;     // deep recursion, strings of tens of kilobytes, many live imports
  bool natural = false; // may include statements that fail by themselves
  bool cps = false;     // checkpoints that may fail and host calls that swallow failures
  bool applies = true;  // host and imported functions through apply
  int emit = 25;        // percent of statements that emit
};
struct Gen {
  Rng &r;
  Model &m;
  GenCfg c;
  std::string pre;                       // prefix of new names
  int uid = 0;
  struct Var { std::string name; char t; };
  struct Fn { std::string name, sig; };
  std::vector<Var> vars;
  std::vector<Fn> fns;
  int loop = 0, infn = 0, nest = 0, dyn = 0;
  bool in_cb = false;
  std::string self;                      // type of this: 'O' inside methods
  Gen(Rng &r, Model &m, GenCfg c, std::string pre);
  std::vector<Node *> program();
  std::vector<Node *> prelude();
  // pieces
  std::string fresh(const char *p) { return pre + p + std::to_string(uid++); }
  Node *expr(char t, int d);
  Node *var(char t);
  Node *num(int d), *str(int d), *boolean(int d), *obj(int d), *arr(int d), *objarr(int d), *jobj(int d);
  Node *lit_str();
  Node *func(const std::string &sig, bool cb = false);
  Node *callfn(char ret, int d);
  void stmt(std::vector<Node *> &out, int d);
  void block(std::vector<Node *> &out, int n, int d);
  Node *dynkey();
  Node *failing_arg(Node *bad);
  Node *thisof(int d);
};
// a generated program that the model finishes within `fuel` steps
std::vector<Node *> gen_program(uint64_t seed, Model &m, GenCfg c, const std::string &pre, uint64_t fuel = 6000);
