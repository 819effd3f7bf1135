// Shared scenario helpers.
#pragma once
#include "gen.h"
#include "host.h"
void run_prelude(Engine &e, Model &m);
std::string first_diff(const std::string &a, const std::string &b);
void check_trace(Engine &e, Model &m, const std::string &src);   // compares and clears both traces
std::string engine_state(Engine &e);          // rendered variables and host-kept values
std::string model_state(Engine &e, Model &m);
std::string err_report(Engine &e, mjs_err_t err);   // code, trace and text; empty for MJS_OK
void check_globals(Engine &e, Model &m, const std::string &src);

// node builders
namespace nb {
inline Node *V(const std::string &n) { return mk(E_VAR, n); }
inline Node *N(double d) { return mknum(d); }
inline Node *T(const std::string &s) { return mk(E_STR, s); }
inline Node *dot(Node *o, const std::string &k) { return mk(E_DOT, k, {o}); }
inline Node *bin(const char *op, Node *a, Node *b) { return mk(E_BIN, op, {a, b}); }
inline Node *call(Node *f, std::vector<Node *> a = {}) { a.insert(a.begin(), f); return mk(E_CALL, "", a); }
inline Node *st(Node *e) { return mk(S_EXPR, "", {e}); }
inline Node *let(const std::string &n, Node *e) { return mk(S_LET, n, {e}); }
inline Node *set(Node *l, Node *e) { return mk(S_ASSIGN, "", {l, e}); }
inline Node *ret(Node *e) { return mk(S_RETURN, "", {e}); }
inline Node *fn(std::vector<std::string> params, std::vector<Node *> body) { Node *f = mk(E_FUNC); f->names = std::move(params); f->c = std::move(body); return f; }
inline Node *obj(std::vector<std::string> k = {}, std::vector<Node *> v = {}) { Node *o = mk(E_OBJ); o->names = std::move(k); o->c = std::move(v); return o; }
inline Node *iff(Node *c, std::vector<Node *> a) { return mk(S_IF, "", {c, mk(S_BLOCK, "", a)}); }
}  // namespace nb
