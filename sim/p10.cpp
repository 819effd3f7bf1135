// P10: growable buffers keep their contract when allocation fails.
#include "sim.h"
extern "C" {
#include "common/mbuf.h"
}
enum { NB = 3 };
struct Ref { std::vector<int> d; };  // -1: byte with unspecified contents

static void plan10(Rng &r, Plan &p) {
  p.cfg["fail"] = (int64_t) r.below(5);
  p.cfg["mv"] = (int64_t) r.below(3);
  p.cfg["fill"] = r.chance(0.5) ? 0xA5 : 0;
  static const char *K[] = {"append", "append", "append", "insert", "insert", "remove", "resize", "trim", "clear", "move", "free", "init", "append_free", "reserve", "huge"};
  int n = (int) r.range(5, 120);
  int small = r.chance(0.5);
  for (int i = 0; i < n; i++) {
    int64_t sz = small ? r.range(0, 12) : r.chance(0.05) ? r.range(8000, 40000) : r.chance(0.3) ? r.range(0, 5) : r.range(0, 3000);
    p.add(K[r.below(15)], {(int64_t) r.below(NB), sz, (int64_t) r.below(1u << 20), (int64_t) r.below(NB), r.chance(0.35) ? r.range(1, 7) : 0});
  }
}
static void verify(struct mbuf *b, Ref *f, const char *op) {
  for (int i = 0; i < NB; i++) {
    if (b[i].len != f[i].d.size()) S.fail("wrong-length", "after %s: buffer %d has length %zu, expected %zu", op, i, b[i].len, f[i].d.size());
    if (b[i].size < b[i].len) S.fail("capacity", "after %s: capacity %zu below length %zu", op, b[i].size, b[i].len);
    for (size_t k = 0; k < b[i].len; k++)
      if (f[i].d[k] >= 0 && (unsigned char) b[i].buf[k] != f[i].d[k]) S.fail("wrong-contents", "after %s: byte %zu of buffer %d is %02x, expected %02x", op, k, i, (unsigned char) b[i].buf[k], f[i].d[k]);
    if (b[i].size) { volatile char c = b[i].buf[b[i].size - 1]; b[i].buf[b[i].size - 1] = c; }  // the whole capacity is usable
  }
}
static void run10(const Plan &p) {
  A.fill = (int) p.get("fill");
  static const double F[] = {0, 0.02, 0.1, 0.3, 0.7};
  static const double MV[] = {1.0, 0.5, 0.1};
  A.move = MV[p.get("mv")];
  S.rate[F_ALLOC] = F[p.get("fail")];
  struct mbuf b[NB];
  Ref f[NB];
  for (auto &x : b) mbuf_init(&x, 0);
  alloc_faults = true;
  for (auto &op : p.ops) {
    S.begin_op(op.id);
    int i = (int) op.a[0], j = (int) op.a[3];
    size_t n = (size_t) op.a[1];
    // sizes at the edges of what the buffer holds and could hold
    size_t room = b[i].size - b[i].len;
    switch (op.a.size() > 4 ? op.a[4] : 0) {
      case 1: n = f[i].d.size(); break;
      case 2: n = f[i].d.size() + 1; break;
      case 3: if (f[i].d.size()) n = f[i].d.size() - 1; break;
      case 4: n = room; break;
      case 5: n = room + 1; break;
      case 6: if (room) n = room - 1; break;
      case 7: n = b[i].size; break;
    }
    if (n > 60000) n = 60000;
    std::vector<unsigned char> data(n + 1);
    for (size_t k = 0; k < n; k++) data[k] = (unsigned char) (op.a[2] * 7 + (int64_t) k * 13 + op.id);
    struct mbuf before = b[i];
    uint64_t f0 = S.sh->fired[F_ALLOC];
    auto stored = [&](size_t ret, size_t off, bool bytes) {
      bool faulted = S.sh->fired[F_ALLOC] != f0;
      if (ret == n && (n || true)) {
        std::vector<int> add(n);
        for (size_t k = 0; k < n; k++) add[k] = bytes ? data[k] : -1;
        if (ret == 0 && n == 0) return;
        f[i].d.insert(f[i].d.begin() + (long) off, add.begin(), add.end());
      } else if (ret == 0 && faulted) S.probe("rejected_for_memory");
      else S.fail("wrong-result", "%s of %zu bytes returned %zu (allocation failures during it: %s)", op.name.c_str(), n, ret, faulted ? "yes" : "none");
    };
    if (op.name == "append") stored(mbuf_append(&b[i], data.data(), n), f[i].d.size(), true);
    else if (op.name == "insert") { size_t off = op.a[2] % 5 == 0 ? 0 : op.a[2] % 5 == 1 ? f[i].d.size() : (size_t) op.a[2] % (f[i].d.size() + 1); stored(mbuf_insert(&b[i], off, data.data(), n), off, true); }
    else if (op.name == "reserve") { size_t off = (size_t) op.a[2] % (f[i].d.size() + 1); stored(mbuf_insert(&b[i], off, nullptr, n), off, false); }
    else if (op.name == "append_free") {
      if (n == 0) n = 1, data[0] = 9;
      alloc_faults = false;
      void *d = sim_malloc(n);
      alloc_faults = true;
      memcpy(d, data.data(), n);
      stored(mbuf_append_and_free(&b[i], d, n), f[i].d.size(), true);
    } else if (op.name == "remove") { mbuf_remove(&b[i], n); if (n <= f[i].d.size()) f[i].d.erase(f[i].d.begin(), f[i].d.begin() + (long) n); }
    else if (op.name == "resize") {
      mbuf_resize(&b[i], n);
      if (S.sh->fired[F_ALLOC] == f0 && n >= f[i].d.size() && b[i].size != n) S.fail("capacity", "resize to %zu left capacity %zu", n, b[i].size);
    } else if (op.name == "trim") {
      mbuf_trim(&b[i]);
      if (S.sh->fired[F_ALLOC] == f0 && b[i].size != b[i].len) S.fail("capacity", "trim left capacity %zu for length %zu", b[i].size, b[i].len);
    } else if (op.name == "clear") { mbuf_clear(&b[i]); f[i].d.clear(); }
    else if (op.name == "free") { mbuf_free(&b[i]); f[i].d.clear(); if (b[i].size || b[i].buf) S.fail("capacity", "free left capacity %zu", b[i].size); }
    else if (op.name == "init") { mbuf_free(&b[i]); mbuf_init(&b[i], n); f[i].d.clear(); if (S.sh->fired[F_ALLOC] == f0 && b[i].size != n) S.fail("capacity", "init of capacity %zu gave %zu", n, b[i].size); }
    else if (op.name == "move") {
      if (i == j) continue;
      mbuf_free(&b[j]);
      mbuf_move(&b[i], &b[j]);
      f[j].d = f[i].d;
      f[i].d.clear();
      if (b[i].buf || b[i].size) S.fail("move", "the source of a move still holds memory");
    } else if (op.name == "huge") {
      size_t h = ((size_t) 1 << 40) + n, ret = mbuf_append(&b[i], data.data(), h);
      if (ret != 0) S.fail("wrong-result", "append of 2^40 bytes returned %zu", ret);
      S.probe("impossible_size");
    }
    (void) before;
    verify(b, f, op.name.c_str());
    S.log("%s %d %zu -> %zu", op.name.c_str(), i, n, b[i].len);
    S.state(fnv(&b[i].len, 8, b[i].size + op.name.size() * 1000003));
    S.sh->ops_done++;
    S.sh->steps++;
  }
  for (auto &x : b) mbuf_free(&x);
  if (alloc_stat().live) S.fail("leak", "memory left after all buffers were freed: %s", alloc_live_desc().c_str());
}
static Reg reg10("P10", plan10, run10);
