// Harness interface. The same harness source is compiled to LLVM bitcode (executed by the symbolic engine, where the sym_
// functions create solver variables) and natively (where they read the recorded values of one concrete case).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
uint64_t sym_u64(const char *name);
uint32_t sym_u32(const char *name);
uint16_t sym_u16(const char *name);
uint8_t sym_u8(const char *name);
void sym_bytes(void *p, size_t n, const char *name);
uint32_t sym_pick(uint32_t n, const char *name);  // concrete 0..n-1, one path each
uint32_t sym_split(uint32_t n, const char *name); // as sym_pick, distributed over the shards of a run
void sym_assume(bool);
void sym_check(bool, const char *msg);
void sym_fail(const char *msg) __attribute__((noreturn));
void sym_observe(uint64_t);
void sym_reach(const char *label);
uint64_t sym_concrete(uint64_t); // fork over every feasible value
void sym_stop() __attribute__((noreturn)); // abandon the path (outside the harness' bounds)
uint64_t sym_heap_live();
void sym_heap_mode(size_t max); // from here on, allocations may have a symbolic size up to max (and start at the same offset in a page)
void sym_valid(void const *p, size_t n, const char *msg); // check that the n bytes at p are inside one live object
int sym_native(); // 1 when running natively
void sym_debug(const char *, uint64_t);
}
#ifdef THOROUGH
#define BOUND(q, t) (t)
#else
#define BOUND(q, t) (q)
#endif
#define CHECK(c) sym_check((c), #c)
#define CHECKM(c, m) sym_check((c), m)
#define ASSUME(c) sym_assume((c))
#define REACH(l) sym_reach(l)
#define OBS(x) sym_observe((uint64_t)(x))
#define HARNESS(name) extern "C" void name()

// A block of n bytes that is exactly n bytes long: any access outside is reported by the engine (and by ASan natively).
struct Block {
  char *p;
  size_t n;
  explicit Block(size_t n) : p(static_cast<char *>(::operator new(n))), n(n) {}
  Block(size_t n, const char *name) : Block(n) { sym_bytes(p, n, name); }
  ~Block() { ::operator delete(p); }
  Block(Block const &) = delete;
  char *begin() { return p; }
  char *end() { return p + n; }
  char &operator[](size_t i) { return p[i]; }
};
static inline int sgn(long long v) { return (v > 0) - (v < 0); }
// Non short-circuit logic: keeps oracles branch free.
static inline bool all(bool a, bool b) { return (int)a & (int)b; }
static inline bool any(bool a, bool b) { return (int)a | (int)b; }
static inline bool implies(bool a, bool b) { return (int)!a | (int)b; }
template <class... T> bool all(bool a, bool b, T... r) { return all(all(a, b), r...); }
template <class... T> bool any(bool a, bool b, T... r) { return any(any(a, b), r...); }
