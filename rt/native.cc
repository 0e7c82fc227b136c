// Native side of the harness interface: replays one concrete case against the natively compiled library.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
struct V { std::string name; unsigned w; uint64_t v; };
static std::vector<V> *g_v;
static std::vector<uint64_t> *g_o, *g_obs;
static size_t g_i;
static bool g_compare;
enum { RC_OK = 0, RC_CHECK = 77, RC_DIVERGED = 78, RC_ASSUME = 79, RC_OBS = 80, RC_STOP = 81, RC_EXC = 82 };
[[noreturn]] static void out(int rc, const char *what, const char *msg)
{
  fprintf(stderr, "native: %s: %s\n", what, msg);
  fflush(stderr);
  _exit(rc);
}
static uint64_t next(const char *name, unsigned w)
{
  if (g_i >= g_v->size())
    out(RC_DIVERGED, "diverged, no more inputs", name);
  V &v = (*g_v)[g_i++];
  if (v.name != name || v.w != w) {
    fprintf(stderr, "native: expected %s\n", v.name.c_str());
    out(RC_DIVERGED, "diverged at input", name);
  }
  return v.v;
}
static int64_t g_live;
static bool g_page;
extern "C" {
void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
}
extern "C" {
uint64_t sym_u64(const char *n) { return next(n, 64); }
uint32_t sym_u32(const char *n) { return next(n, 32); }
uint16_t sym_u16(const char *n) { return next(n, 16); }
uint8_t sym_u8(const char *n) { return next(n, 8); }
void sym_bytes(void *p, size_t n, const char *name)
{
  for (size_t i = 0; i < n; i++)
    ((uint8_t *)p)[i] = next((std::string(name) + "[" + std::to_string(i) + "]").c_str(), 8);
}
uint32_t sym_pick(uint32_t, const char *n) { return next(n, 32); }
uint32_t sym_split(uint32_t, const char *n) { return next(n, 32); }
void sym_assume(bool b) { if (!b) out(RC_ASSUME, "assumption not met", ""); }
void sym_check(bool b, const char *m) { if (!b) out(RC_CHECK, "CHECK FAILED", m); }
void sym_fail(const char *m) { out(RC_CHECK, "CHECK FAILED", m); }
void sym_observe(uint64_t v) { g_obs->push_back(v); }
void sym_reach(const char *) {}
uint64_t sym_concrete(uint64_t v) { return v; }
void sym_stop() { out(RC_STOP, "stopped", ""); }
uint64_t sym_heap_live() { return g_live; }
void sym_heap_mode(size_t n) { g_page = n != 0; }
void sym_valid(void const *p, size_t n, const char *msg)
{
  if (n && __asan_region_is_poisoned && __asan_region_is_poisoned((void *)p, n)) out(RC_CHECK, "CHECK FAILED", msg);
}
int sym_native() { return 1; }
void sym_debug(const char *n, uint64_t v) { fprintf(stderr, "debug %s = %llu\n", n, (unsigned long long)v); }
}
#ifdef VF_MALLOC
// The allocator of the engine, mirrored: addresses never more aligned than requested, memory filled with 0xAA.
static char *g_pool, *g_cur, *g_end;
static void *vf_alloc(size_t n, size_t al)
{
  if (!g_pool) {
    g_pool = (char *)mmap(nullptr, 1ull << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_cur  = g_pool + 16;
    g_end  = g_pool + (1ull << 30);
  }
  if (al < 16) al = 16;
  if (g_page) g_cur = (char *)(((uintptr_t)g_cur + 4095) / 4096 * 4096);
  uintptr_t a = ((uintptr_t)g_cur + 16 + al - 1) / al * al;
  if (a % (2 * al) == 0) a += al;
  if (a + n + 64 > (uintptr_t)g_end) return nullptr;
  g_cur = (char *)(a + n + 48);
  *(size_t *)(a - 16) = n;
  memset((void *)a, 0xAA, n);
  g_live++;
  return (void *)a;
}
extern "C" {
void *malloc(size_t n) { return vf_alloc(n, 16); }
void free(void *p) { if (p) g_live--; }
void *calloc(size_t a, size_t b) { void *p = vf_alloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void *realloc(void *o, size_t n)
{
  void *p = vf_alloc(n, 16);
  if (o && p) { g_live--; size_t k = ((size_t *)o)[-2]; memcpy(p, o, k < n ? k : n); }
  return p;
}
void *aligned_alloc(size_t al, size_t n) { return vf_alloc(n, al); }
void *memalign(size_t al, size_t n) { return vf_alloc(n, al); }
int posix_memalign(void **r, size_t al, size_t n) { *r = vf_alloc(n, al); return *r ? 0 : 12; }
size_t malloc_usable_size(void *p) { return p ? ((size_t *)p)[-2] : 0; }
}
#endif
static bool load(const char *fn)
{
  FILE *f = fopen(fn, "r");
  if (!f) return false;
  g_v = new std::vector<V>; g_o = new std::vector<uint64_t>; g_obs = new std::vector<uint64_t>;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    char nm[2048]; unsigned w; unsigned long long v;
    if (sscanf(line, "V %2047s %u %llx", nm, &w, &v) == 3) g_v->push_back({nm, w, v});
    else if (sscanf(line, "O %llx", &v) == 1) g_o->push_back(v);
  }
  fclose(f);
  g_obs->reserve(100000);
  if (__sanitizer_install_malloc_and_free_hooks)
    __sanitizer_install_malloc_and_free_hooks([](const volatile void *, size_t) { g_live++; }, [](const volatile void *p) { if (p) g_live--; });
  return true;
}
static int run(const char *entry, const char *fn)
{
  if (!load(fn)) return 2;
  auto f = (void (*)())dlsym(RTLD_DEFAULT, entry);
  if (!f) { fprintf(stderr, "no entry %s\n", entry); return 2; }
  try { f(); } catch (...) { out(RC_EXC, "CHECK FAILED", "uncaught exception"); }
  if (g_compare) {
    if (*g_o != *g_obs) {
      fprintf(stderr, "native: observations differ (%zu recorded, %zu seen)\n", g_o->size(), g_obs->size());
      for (size_t i = 0; i < g_o->size() && i < g_obs->size(); i++)
        if ((*g_o)[i] != (*g_obs)[i])
          fprintf(stderr, "  #%zu engine %llx native %llx\n", i, (unsigned long long)(*g_o)[i], (unsigned long long)(*g_obs)[i]);
      return RC_OBS;
    }
    if (g_i != g_v->size()) return RC_DIVERGED;
  }
  return RC_OK;
}
int main(int argc, char **argv)
{
  if (argc < 4) return 2;
  std::string mode = argv[1];
  const char *entry = argv[2];
  if (mode == "replay") { alarm(60); int rc = run(entry, argv[3]); fflush(stdout); fflush(stderr); _exit(rc); }
  g_compare = true;
  int bad = 0;
  for (int i = 3; i < argc; i++) {
    pid_t p = fork();
    if (!p) { alarm(30); int rc = run(entry, argv[i]); fflush(stderr); _exit(rc); }
    int st = 0;
    waitpid(p, &st, 0);
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    printf("%s %d\n", argv[i], rc);
    bad |= rc;
  }
  fflush(stdout);
  _exit(bad ? 1 : 0);
}
