// Symbolic executor for LLVM 18 IR (KLEE class): executes the compiled library code with symbolic inputs, forks on symbolic
// control flow, checks memory safety and harness assertions with the decision procedure in solver.cc.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>

#include "expr.h"
#include "solver.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;
typedef uint64_t u64;

static double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------------------------------------ values
struct Val {
  u64 c   = 0;
  Expr *e = nullptr; // non null: symbolic, or a constant wider than 64 bits
};
static inline Val vc(u64 c)
{
  Val v;
  v.c = c;
  return v;
}
static inline Val ve(Expr *e)
{
  Val v;
  if (e->is_const() && e->w <= 64)
    v.c = (u64)e->c;
  else
    v.e = e;
  return v;
}
static inline Expr *ex(Val const &v, unsigned w) { return v.e ? v.e : e_const(w, v.c); }
static inline bool conc(Val const &v) { return !v.e; }
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

// ------------------------------------------------------------------------------------------------ memory
enum Kind : uint8_t { KGlobal, KHeap, KStack, KExc };
struct Obj {
  u64 addr, size;
  Expr *ssize = nullptr; // symbolic logical size (<= size), when allocated with a symbolic size
  bool ro   = false;
  Kind kind = KHeap;
  uint8_t tag = 0; // allocation family: 0 malloc, 1 new, 2 new[]
  int refs  = 0;
  std::vector<uint8_t> data;
  std::vector<Expr *> sym; // empty when fully concrete
  std::string const *name = nullptr;
};
struct ObjRef {
  Obj *p = nullptr;
  ObjRef() {}
  ObjRef(Obj *o) : p(o)
  {
    if (p)
      p->refs++;
  }
  ObjRef(ObjRef const &o) : p(o.p)
  {
    if (p)
      p->refs++;
  }
  ObjRef(ObjRef &&o) noexcept : p(o.p) { o.p = nullptr; }
  ObjRef &operator=(ObjRef o) noexcept
  {
    std::swap(p, o.p);
    return *this;
  }
  ~ObjRef()
  {
    if (p && --p->refs == 0)
      delete p;
  }
  Obj *operator->() const { return p; }
};

static std::vector<ObjRef> g_ro; // read-only globals, sorted by address (shared by all states)

// ------------------------------------------------------------------------------------------------ decoded code
struct Opnd {
  int slot = -1;
  int n    = 1;
  Val cv;
  std::vector<Val> *cvs = nullptr; // multi-slot constant
};
struct Leaf {
  unsigned off, w;
};
struct DInst {
  Instruction *I = nullptr;
  unsigned opc   = 0;
  int dst = -1, nd = 0;
  std::vector<Opnd> ops;
  std::vector<Leaf> *leaves = nullptr;
  unsigned w = 0, w2 = 0; // widths: result / operand
  int64_t off = 0;
  std::vector<std::pair<int, int64_t>> scaled; // gep: operand idx, scale
  std::vector<int> succ;
  Function *callee = nullptr;
  int pred = 0;
};
struct DBlock {
  std::vector<DInst> code;
  BasicBlock *bb;
  bool seen = false;
};
struct DFunc {
  Function *F;
  int nslots = 0;
  std::vector<DBlock> blocks;
  std::unordered_map<const Value *, int> slot;
  bool repo = false;
  std::string pretty;
};

struct Frame {
  DFunc *f;
  int bb = 0, ip = 0, prev = -1;
  std::vector<Val> regs;
  std::vector<u64> allocas;
  DInst *call = nullptr; // the call/invoke in the caller
};

struct Violation {
  std::string kind, msg, loc, stack, file;
};

struct Input {
  std::string name;
  Expr *var;
};

struct State {
  std::vector<std::shared_ptr<Frame>> frames;
  std::vector<ObjRef> heap;  // rw globals + heap, sorted by address
  std::vector<ObjRef> stack; // stack objects
  u64 heap_next, stack_next;
  std::vector<Expr *> pc;
  Model model;
  std::vector<Input> inputs;
  std::vector<Val> obs;
  unsigned nvars = 0;
  u64 insts      = 0;
  int64_t live   = 0; // live heap allocations
  // exceptions
  u64 exc = 0, exc_ti = 0;
  std::vector<std::pair<u64, u64>> caught; // obj, typeinfo
  std::unordered_map<u64, u64> exc_type;
  unsigned depth = 0;
  unsigned splits = 0;
  int splitk = -1, splitn = 1; // share of this state in the work of the run
  std::unordered_map<u64, u64> smin; // proven minimum size of objects of symbolic size
  u64 symmax = 0; // largest symbolic allocation size, 0: allocation sizes are made concrete
  Frame &top()
  {
    auto &f = frames.back();
    if (f.use_count() > 1)
      f = std::make_shared<Frame>(*f);
    return *f;
  }
};

struct PathEnd {}; // current path finished (any reason)

// ------------------------------------------------------------------------------------------------ engine globals
static Module *M;
static const DataLayout *DL;
static std::unordered_map<Function *, DFunc *> g_dfuncs;
static std::unordered_map<const GlobalValue *, u64> g_gaddr;
static std::unordered_map<u64, Function *> g_faddr;
static std::unordered_map<Type *, std::vector<Leaf> *> g_leaves;
static std::vector<State *> g_work;
static State *S;
static int g_splitk = 0, g_splitn = 1;
static double g_t0, g_tlimit = 1e9;
static u64 g_max_insts = 4000000;
static unsigned g_max_viol = 3, g_samples = 20, g_max_enum = 600;
static std::string g_outdir = ".";
static bool g_verbose = false;

static struct {
  u64 paths = 0, killed = 0, errors = 0, incomplete = 0, forks = 0, branches = 0, insts = 0, checks_sym = 0, checks_conc = 0,
      enums = 0, memchecks = 0, maxpc = 0;
} st;
static std::map<std::string, u64> g_incomplete; // reason -> count
static std::map<std::string, u64> g_reach;
static std::vector<Violation> g_viol;
static std::set<std::string> g_violkeys;
static std::set<DFunc *> g_used;
static u64 g_rng = 88172645463325252ull;
static u64 rnd()
{
  g_rng ^= g_rng << 13;
  g_rng ^= g_rng >> 7;
  g_rng ^= g_rng << 17;
  return g_rng;
}

[[noreturn]] static void die(std::string const &s)
{
  fprintf(stderr, "symex: fatal: %s\n", s.c_str());
  exit(3);
}

static void flatten(Type *T, unsigned base, std::vector<Leaf> &out)
{
  if (auto *IT = dyn_cast<IntegerType>(T)) {
    out.push_back({base, IT->getBitWidth()});
  } else if (T->isPointerTy()) {
    out.push_back({base, 64});
  } else if (T->isDoubleTy()) {
    out.push_back({base, 64});
  } else if (T->isFloatTy()) {
    out.push_back({base, 32});
  } else if (T->isX86_FP80Ty() || T->isFP128Ty()) {
    out.push_back({base, 128});
  } else if (auto *ST = dyn_cast<StructType>(T)) {
    auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++)
      flatten(ST->getElementType(i), base + (unsigned)SL->getElementOffset(i), out);
  } else if (auto *AT = dyn_cast<ArrayType>(T)) {
    unsigned es = DL->getTypeAllocSize(AT->getElementType());
    for (unsigned i = 0; i < AT->getNumElements(); i++)
      flatten(AT->getElementType(), base + i * es, out);
  } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
    unsigned ew = VT->getElementType()->isPointerTy() ? 64 : VT->getScalarSizeInBits();
    for (unsigned i = 0; i < VT->getNumElements(); i++)
      flatten(VT->getElementType(), base + i * ew / 8, out);
  } else if (T->isVoidTy()) {
  } else {
    std::string s;
    raw_string_ostream os(s);
    T->print(os);
    die("unsupported type " + s);
  }
}
static std::vector<Leaf> *leaves(Type *T)
{
  auto &l = g_leaves[T];
  if (!l) {
    l = new std::vector<Leaf>;
    flatten(T, 0, *l);
  }
  return l;
}

static std::string demangle1(std::string const &n) { return llvm::demangle(n); }

// ------------------------------------------------------------------------------------------------ errors
static std::string loc_of(Instruction *I)
{
  if (!I)
    return "?";
  if (const DebugLoc &dl = I->getDebugLoc()) {
    auto *l = dl.get();
    return (l->getFilename() + ":" + std::to_string(l->getLine())).str();
  }
  return "?";
}
static Instruction *cur_inst(Frame const &f)
{
  auto &b = f.f->blocks[f.bb];
  int i   = f.ip < (int)b.code.size() ? f.ip : (int)b.code.size() - 1;
  return b.code[i].I;
}
static std::string where(State &s, std::string *stack = nullptr)
{
  std::string best;
  std::string sk;
  for (size_t i = s.frames.size(); i-- > 0;) {
    auto &f        = *s.frames[i];
    Instruction *I = i + 1 == s.frames.size() ? cur_inst(f) : s.frames[i + 1]->call ? s.frames[i + 1]->call->I : nullptr;
    std::string l  = loc_of(I);
    sk += "    " + f.f->pretty + " (" + l + ")\n";
    if (best.empty() && I && I->getDebugLoc()) {
      // prefer the innermost location in the library
      const DILocation *dl = I->getDebugLoc().get();
      while (dl) {
        std::string fn = (dl->getDirectory() + "/" + dl->getFilename()).str();
        if (dl->getFilename().contains("swoc") || dl->getFilename().contains("/src/") || fn.find("/code/") != std::string::npos) {
          best = (dl->getFilename() + ":" + std::to_string(dl->getLine())).str();
          break;
        }
        dl = dl->getInlinedAt();
      }
    }
  }
  if (stack)
    *stack = sk;
  return best.empty() ? "?" : best;
}

static void write_case(std::string const &path, State &s, Model const &m, bool with_obs)
{
  FILE *f = fopen(path.c_str(), "w");
  if (!f)
    return;
  e_eval_new();
  for (auto &in : s.inputs) {
    u64 v = (u64)e_eval(in.var, m);
    fprintf(f, "V %s %u %llx\n", in.name.c_str(), in.var->w, (unsigned long long)v);
  }
  if (with_obs)
    for (auto &o : s.obs)
      fprintf(f, "O %llx\n", (unsigned long long)(o.e ? (u64)e_eval(o.e, m) : o.c));
  fclose(f);
}

static void violation(std::string const &kind, std::string const &msg, Model const &m)
{
  std::string stack;
  std::string loc = where(*S, &stack);
  std::string key = kind + "|" + msg + "|" + loc;
  if (g_violkeys.size() < g_max_viol && g_violkeys.insert(key).second) {
    Violation v;
    v.kind  = kind;
    v.msg   = msg;
    v.loc   = loc;
    v.stack = stack;
    v.file  = g_outdir + "/cex" + std::to_string(g_splitk) + "_" + std::to_string(g_viol.size()) + ".txt";
    write_case(v.file, *S, m, false);
    g_viol.push_back(v);
    fprintf(stderr, "symex: candidate violation [%s] %s at %s\n%s", kind.c_str(), msg.c_str(), loc.c_str(), stack.c_str());
  }
}
[[noreturn]] static void path_error(std::string const &kind, std::string const &msg)
{
  st.errors++;
  violation(kind, msg, S->model);
  throw PathEnd{};
}
[[noreturn]] static void path_incomplete(std::string const &why)
{
  st.incomplete++;
  if (g_incomplete[why]++ == 0) {
    std::string sk;
    where(*S, &sk);
    fprintf(stderr, "symex: incomplete path: %s\n%s", why.c_str(), sk.c_str());
  }
  throw PathEnd{};
}

// ------------------------------------------------------------------------------------------------ constraints
static void slice(std::vector<Expr *> const &pc, Expr *c, std::vector<Expr *> &out)
{
  static std::vector<uint8_t> used;
  used.assign(pc.size(), 0);
  std::vector<u64> vars = c->vars->bits;
  bool ch               = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++)
      if (!used[i] && vs_overlap(vars, pc[i]->vars)) {
        used[i] = 1;
        vs_add(vars, pc[i]->vars);
        out.push_back(pc[i]);
        ch = true;
      }
  }
}
static Res query(State &s, Expr *c, Model &m, bool important = false)
{
  if (c->is_const())
    return c->c ? SAT : UNSAT;
  std::vector<Expr *> cs;
  slice(s.pc, c, cs);
  cs.push_back(c);
  m     = s.model;
  Res r = solve(cs, m, important);
  return r;
}
static u64 eval_model(State &s, Expr *e)
{
  e_eval_new();
  return (u64)e_eval(e, s.model);
}
static u128 eval_model128(State &s, Expr *e)
{
  e_eval_new();
  return e_eval(e, s.model);
}
static void add_pc(State &s, Expr *c)
{
  if (c->is_const())
    return;
  if (c->op == OAnd && c->w == 1) {
    add_pc(s, c->k[0]);
    add_pc(s, c->k[1]);
    return;
  }
  // not(or(a,b)) -> not a, not b
  if (c->op == OXor && c->k[1]->is_const() && c->k[0]->op == OOr) {
    add_pc(s, e_not(c->k[0]->k[0]));
    add_pc(s, e_not(c->k[0]->k[1]));
    return;
  }
  for (auto x : s.pc)
    if (x == c)
      return;
  s.pc.push_back(c);
  st.maxpc = std::max<u64>(st.maxpc, s.pc.size());
}
static State *fork_state(State &s)
{
  st.forks++;
  auto *n = new State(s);
  // references to the top frame of the current state stay valid and private across a fork
  if (!n->frames.empty())
    n->frames.back() = std::make_shared<Frame>(*s.frames.back());
  n->depth++;
  s.depth++;
  return n;
}
// Decide a boolean condition in the current state; forks when both sides are feasible. The returned value is what the current
// state continues with; the other state (if any) re-executes through `other` after having its constraint added.
static bool decide(Expr *c, std::function<void(State *)> const &other)
{
  if (c->is_const())
    return c->c != 0;
  st.branches++;
  bool v  = eval_model(*S, c) != 0;
  Expr *o = v ? e_not(c) : c;
  Model m;
  Res r = query(*S, o, m);
  if (r == UNKNOWN) {
    g_incomplete["solver unknown on branch"]++;
    st.incomplete++;
    add_pc(*S, v ? c : e_not(c)); // the other side is given up
  }
  if (r == SAT) {
    State *n = fork_state(*S);
    n->model = m;
    add_pc(*n, o);
    if (other)
      other(n);
    g_work.push_back(n);
    add_pc(*S, v ? c : e_not(c));
  }
  return v;
}
static void assume(Expr *c)
{
  if (c->is_const()) {
    if (!c->c) {
      st.killed++;
      throw PathEnd{};
    }
    return;
  }
  if (!eval_model(*S, c)) {
    Model m;
    Res r = query(*S, c, m);
    if (r == UNKNOWN)
      path_incomplete("solver unknown on assume");
    if (r == UNSAT) {
      st.killed++;
      throw PathEnd{};
    }
    S->model = m;
  }
  add_pc(*S, c);
}
// Make an expression concrete by forking over all feasible values. The forked states re-execute the current instruction.
static u64 concretize(Val v, unsigned w, const char *what)
{
  if (conc(v))
    return v.c;
  Expr *e = v.e;
  u64 val = (u64)eval_model128(*S, e);
  Expr *c = e_eq(e, e_const(w, val));
  if (c->is_const())
    return val;
  Model m;
  Res r = query(*S, e_not(c), m);
  if (r == UNKNOWN)
    path_incomplete("solver unknown on concretisation");
  if (r == SAT) {
    st.enums++;
    if (S->splits++ > g_max_enum)
      path_incomplete(std::string("too many values for ") + what);
    State *n = fork_state(*S);
    n->model = m;
    add_pc(*n, e_not(c));
    g_work.push_back(n); // re-executes the same instruction (ip not advanced yet)
    add_pc(*S, c);
  }
  return val;
}

// ------------------------------------------------------------------------------------------------ memory ops
static const u64 STACK_BASE = 0x700000000000ull, HEAP_BASE = 0x200000000000ull, GLOB_BASE = 0x100000000000ull,
                 RO_BASE = 0x080000000000ull, FUNC_BASE = 0x010000000000ull;

static ObjRef *find_in(std::vector<ObjRef> &v, u64 a)
{
  size_t lo = 0, hi = v.size();
  while (lo < hi) {
    size_t mid = (lo + hi) / 2;
    if (v[mid]->addr <= a)
      lo = mid + 1;
    else
      hi = mid;
  }
  if (!lo)
    return nullptr;
  ObjRef *o = &v[lo - 1];
  if (a < (*o)->addr + (*o)->size || (a == (*o)->addr))
    return o;
  return nullptr;
}
static ObjRef *find_obj(u64 a)
{
  if (a >= STACK_BASE)
    return find_in(S->stack, a);
  if (a >= GLOB_BASE)
    return find_in(S->heap, a);
  if (a >= RO_BASE)
    return find_in(g_ro, a);
  return nullptr;
}
static Obj *writable(ObjRef &r)
{
  if (r->refs > 1) {
    Obj *n  = new Obj(*r.p);
    n->refs = 0;
    r       = ObjRef(n);
  }
  return r.p;
}
static u64 place(u64 &next, u64 size, u64 align)
{
  if (align < 8)
    align = 8;
  u64 a = (next + align - 1) / align * align;
  if (a % (2 * align) == 0)
    a += align; // never more aligned than requested
  next = a + size + 48;
  return a;
}
static u64 new_obj(u64 size, u64 align, Kind k, uint8_t tag = 0, std::string const *name = nullptr)
{
  Obj *o  = new Obj;
  o->size = size;
  o->kind = k;
  o->tag  = tag;
  o->name = name;
  o->data.assign(size, 0xAA);
  if (k == KStack) {
    o->addr = place(S->stack_next, size, align);
    S->stack.push_back(ObjRef(o));
  } else {
    if (S->symmax && k == KHeap)
      S->heap_next = (S->heap_next + 4095) / 4096 * 4096 + 16; // position within the page does not depend on earlier sizes
    o->addr = place(S->heap_next, size, align < 16 ? 16 : align);
    S->heap.push_back(ObjRef(o));
  }
  return o->addr;
}
static std::string desc(u64 a)
{
  char b[64];
  snprintf(b, sizeof b, "0x%llx", (unsigned long long)a);
  return b;
}
static ObjRef *check_access(u64 a, u64 n, bool write)
{
  ObjRef *o = find_obj(a);
  if (!o || a + n > (*o)->addr + (*o)->size || a + n < a) {
    std::string m = write ? "invalid write of size " : "invalid read of size ";
    m += std::to_string(n);
    if (!o) {
      if (a < 4096)
        m += " (null pointer access)";
      else {
        // nearest object below
        m += " (no live object at this address)";
      }
    } else
      m += " past the end of a " + std::to_string((*o)->size) + " byte object";
    path_error("memory", m);
  }
  if (write && (*o)->ro)
    path_error("memory", "write to read-only memory");
  if ((*o)->ssize) {
    u64 end   = a + n - (*o)->addr, base = (*o)->addr;
    u64 &known = S->smin[base];
    Expr *bad  = end <= known ? e_const(1, 0) : e_bin(OUlt, (*o)->ssize, e_const(64, end));
    if (!bad->is_const() || bad->c) {
      Model m;
      Res r = query(*S, bad, m);
      if (r == UNKNOWN)
        path_incomplete("solver unknown on bounds check");
      if (r == SAT) {
        S->model = m;
        path_error("memory", std::string(write ? "invalid write of size " : "invalid read of size ") + std::to_string(n) + " past the end of an object of symbolic size");
      }
    }
    known = std::max(known, end);
    o     = find_obj(base);
  }
  return o;
}
static Val load_obj(Obj *o, u64 off, unsigned w)
{
  unsigned n = (w + 7) / 8;
  if (o->sym.empty() || n == 0) {
    if (w <= 64) {
      u64 v = 0;
      memcpy(&v, &o->data[off], n);
      return vc(v & m64(w));
    }
    u128 v = 0;
    memcpy(&v, &o->data[off], n);
    return ve(e_const(w, v));
  }
  bool any = false;
  for (unsigned i = 0; i < n; i++)
    if (o->sym[off + i])
      any = true;
  if (!any) {
    u128 v = 0;
    memcpy(&v, &o->data[off], n);
    v &= mask_of(w);
    return w <= 64 ? vc((u64)v) : ve(e_const(w, v));
  }
  Expr *r = nullptr;
  for (unsigned i = n; i-- > 0;) {
    Expr *b = o->sym[off + i] ? o->sym[off + i] : e_const(8, o->data[off + i]);
    r       = r ? e_concat(r, b) : b;
  }
  if (r->w > w)
    r = e_extract(r, 0, w);
  return ve(r);
}
static void store_obj(Obj *o, u64 off, unsigned w, Val v)
{
  unsigned n = (w + 7) / 8;
  if (conc(v) || v.e->is_const()) {
    u128 x = conc(v) ? (u128)v.c : v.e->c;
    x &= mask_of(w);
    memcpy(&o->data[off], &x, n);
    if (!o->sym.empty())
      for (unsigned i = 0; i < n; i++)
        o->sym[off + i] = nullptr;
    return;
  }
  if (o->sym.empty())
    o->sym.resize(o->size, nullptr);
  Expr *e = v.e;
  if (e->w < n * 8)
    e = e_zext(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    Expr *b = e_extract(e, i * 8, 8);
    if (b->is_const()) {
      o->data[off + i] = (uint8_t)b->c;
      o->sym[off + i]  = nullptr;
    } else
      o->sym[off + i] = b;
  }
}

static Expr *mux_table(Obj *o, Expr *idx, unsigned bit, u64 lo, u64 stride, u64 start, unsigned w, u64 count)
{
  // value at index lo .. lo + 2^bit - 1
  if (lo >= count)
    return nullptr;
  if (bit == 0)
    return ex(load_obj(o, start + lo * stride, w), w);
  Expr *l = mux_table(o, idx, bit - 1, lo, stride, start, w, count);
  Expr *r = mux_table(o, idx, bit - 1, lo + (1ull << (bit - 1)), stride, start, w, count);
  if (!r)
    return l;
  return e_ite(e_extract(idx, bit - 1, 1), r, l);
}

// Resolve a symbolic address to one object, in bounds for n bytes; forks for the other possibilities.
static ObjRef *resolve(Expr *addr, u64 n, bool write)
{
  st.memchecks++;
  u64 a     = eval_model(*S, addr);
  ObjRef *o = find_obj(a);
  if (!o || a + n > (*o)->addr + (*o)->size)
    check_access(a, n, write); // reports
  if (write && (*o)->ro)
    path_error("memory", "write to read-only memory");
  u64 base = (*o)->addr, sz = (*o)->size;
  Expr *inb = e_bin(OUle, e_bin(OSub, addr, e_const(64, base)), e_const(64, sz - n));
  if ((*o)->ssize) {
    Expr *end = e_bin(OAdd, e_bin(OSub, addr, e_const(64, base)), e_const(64, n));
    inb       = e_bin(OAnd, inb, e_bin(OUle, end, (*o)->ssize));
    if (!eval_model(*S, inb))
      path_error("memory", std::string(write ? "invalid write of size " : "invalid read of size ") + std::to_string(n) + " past the end of an object of symbolic size");
  }
  if (inb->is_const())
    return o;
  Model m;
  Res r = query(*S, e_not(inb), m);
  if (r == UNKNOWN)
    path_incomplete("solver unknown on bounds check");
  if (r == SAT) {
    State *x = fork_state(*S);
    x->model = m;
    add_pc(*x, e_not(inb));
    g_work.push_back(x);
    add_pc(*S, inb);
  }
  return find_obj(base);
}

static Val mem_load(Val addr, unsigned w, unsigned n, bool isptr)
{
  if (conc(addr)) {
    ObjRef *o = check_access(addr.c, n, false);
    return load_obj(o->p, addr.c - (*o)->addr, w);
  }
  ObjRef *o = resolve(addr.e, n, false);
  u64 base = (*o)->addr, sz = (*o)->size;
  Expr *off = e_bin(OSub, addr.e, e_const(64, base));
  unsigned tz = 0;
  while (tz < 6 && (off->kz >> tz & 1))
    tz++;
  u64 stride = 1ull << tz, start = 0;
  if (tz == 0) {
    // constant low bits other than zero?
    unsigned kb = 0;
    while (kb < 6 && ((off->kz | off->ko) >> kb & 1))
      kb++;
    if (kb) {
      stride = 1ull << kb;
      start  = (u64)off->ko & (stride - 1);
      off    = e_bin(OSub, off, e_const(64, start));
      tz     = kb;
    }
  }
  u64 count = sz >= start + n ? (sz - start - n) / stride + 1 : 0;
  if (count && count <= ((*o)->ro || (*o)->sym.empty() ? 1024u : 160u) && !(isptr && !(*o)->ro)) {
    unsigned bits = 0;
    while ((1ull << bits) < count)
      bits++;
    Expr *idx = e_bin(OLShr, off, e_const(64, tz));
    if (bits == 0)
      return ve(ex(load_obj(o->p, start, w), w));
    return ve(mux_table(o->p, idx, bits, 0, stride, start, w, count));
  }
  u64 a = concretize(addr, 64, "symbolic load address");
  o     = check_access(a, n, false);
  return load_obj(o->p, a - (*o)->addr, w);
}
static void mem_store(Val addr, unsigned w, unsigned n, Val v)
{
  u64 a     = conc(addr) ? addr.c : concretize(addr, 64, "symbolic store address");
  ObjRef *o = check_access(a, n, true);
  store_obj(writable(*o), a - (*o)->addr, w, v);
}
static void mem_copy(u64 d, u64 s, u64 n)
{
  if (!n)
    return;
  ObjRef *so = check_access(s, n, false);
  ObjRef sk  = *so; // keep alive
  ObjRef *dobj = check_access(d, n, true);
  u64 soff = s - sk->addr;
  std::vector<uint8_t> td(sk->data.begin() + soff, sk->data.begin() + soff + n);
  std::vector<Expr *> ts;
  if (!sk->sym.empty()) {
    ts.assign(sk->sym.begin() + soff, sk->sym.begin() + soff + n);
    bool any = false;
    for (auto x : ts)
      if (x)
        any = true;
    if (!any)
      ts.clear();
  }
  sk         = ObjRef();
  Obj *o     = writable(*dobj);
  u64 doff   = d - o->addr;
  memcpy(&o->data[doff], td.data(), n);
  if (!ts.empty()) {
    if (o->sym.empty())
      o->sym.resize(o->size, nullptr);
    for (u64 i = 0; i < n; i++)
      o->sym[doff + i] = ts[i];
  } else if (!o->sym.empty())
    for (u64 i = 0; i < n; i++)
      o->sym[doff + i] = nullptr;
}
static std::string read_cstr(u64 a)
{
  std::string s;
  for (int i = 0; i < 4096; i++) {
    ObjRef *o = find_obj(a + i);
    if (!o || a + i >= (*o)->addr + (*o)->size)
      break;
    char c = (char)(*o)->data[a + i - (*o)->addr];
    if (!c)
      break;
    s += c;
  }
  return s;
}

// ------------------------------------------------------------------------------------------------ constants / globals
static u64 func_addr(Function *F)
{
  auto it = g_gaddr.find(F);
  if (it != g_gaddr.end())
    return it->second;
  u64 a      = FUNC_BASE + 16 * (g_faddr.size() + 1);
  g_gaddr[F] = a;
  g_faddr[a] = F;
  return a;
}
static u64 const_int(Constant *C);
static void const_leaves(Constant *C, std::vector<Val> &out)
{
  Type *T = C->getType();
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    unsigned w = CI->getBitWidth();
    if (w <= 64)
      out.push_back(vc(CI->getZExtValue()));
    else {
      if (w > 128)
        die("integer constant wider than 128 bits");
      APInt v = CI->getValue().zext(128);
      out.push_back(ve(e_const(w, ((u128)v.extractBitsAsZExtValue(64, 64) << 64) | v.extractBitsAsZExtValue(64, 0))));
    }
    return;
  }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) {
    for (auto &l : *leaves(T))
      out.push_back(l.w <= 64 ? vc(0) : ve(e_const(l.w, 0)));
    return;
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    if (T->isDoubleTy() || T->isFloatTy())
      out.push_back(vc(CF->getValueAPF().bitcastToAPInt().getZExtValue()));
    else
      out.push_back(ve(e_const(128, 0)));
    return;
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    for (auto &o : CA->operands())
      const_leaves(cast<Constant>(o), out);
    return;
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    for (unsigned i = 0; i < CD->getNumElements(); i++)
      const_leaves(CD->getElementAsConstant(i), out);
    return;
  }
  out.push_back(vc(const_int(C)));
}
static u64 const_int(Constant *C)
{
  if (auto *F = dyn_cast<Function>(C))
    return func_addr(F);
  if (auto *A = dyn_cast<GlobalAlias>(C))
    return const_int(A->getAliasee());
  if (auto *G = dyn_cast<GlobalValue>(C)) {
    auto it = g_gaddr.find(G);
    if (it == g_gaddr.end())
      die("unknown global " + G->getName().str());
    return it->second;
  }
  if (auto *CI = dyn_cast<ConstantInt>(C))
    return CI->getZExtValue();
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C))
    return 0;
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    unsigned w = CE->getType()->isPointerTy() ? 64 : CE->getType()->getPrimitiveSizeInBits().getFixedValue();
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *GO = cast<GEPOperator>(CE);
      APInt off(64, 0);
      if (!GO->accumulateConstantOffset(*DL, off))
        die("constant gep");
      return const_int(cast<Constant>(GO->getPointerOperand())) + off.getSExtValue();
    }
    case Instruction::BitCast:
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::AddrSpaceCast:
    case Instruction::Trunc:
    case Instruction::ZExt:
      return const_int(CE->getOperand(0)) & m64(w);
    case Instruction::Add: return (const_int(CE->getOperand(0)) + const_int(CE->getOperand(1))) & m64(w);
    case Instruction::Sub: return (const_int(CE->getOperand(0)) - const_int(CE->getOperand(1))) & m64(w);
    case Instruction::Xor: return (const_int(CE->getOperand(0)) ^ const_int(CE->getOperand(1))) & m64(w);
    case Instruction::And: return (const_int(CE->getOperand(0)) & const_int(CE->getOperand(1))) & m64(w);
    case Instruction::ICmp: {
      u64 a = const_int(CE->getOperand(0)), b = const_int(CE->getOperand(1));
      switch (CE->getPredicate()) {
      case CmpInst::ICMP_EQ: return a == b;
      case CmpInst::ICMP_NE: return a != b;
      case CmpInst::ICMP_ULT: return a < b;
      case CmpInst::ICMP_UGT: return a > b;
      default: break;
      }
    }
    default: break;
    }
  }
  std::string s;
  raw_string_ostream os(s);
  C->print(os);
  die("unsupported constant " + s);
}

static void init_globals()
{
  u64 ro_next = RO_BASE + 16, rw_next = GLOB_BASE + 16;
  std::vector<std::pair<GlobalVariable *, Obj *>> todo;
  for (auto &G : M->globals()) {
    if (G.getName().starts_with("llvm."))
      continue;
    bool ro = G.isConstant() && G.hasInitializer();
    Obj *o  = new Obj;
    o->size = G.hasInitializer() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 512;
    o->kind = KGlobal;
    u64 al  = G.getAlign() ? G.getAlign()->value() : 16;
    o->addr = place(ro ? ro_next : rw_next, o->size, al < 16 ? 16 : al);
    o->data.assign(o->size, 0);
    o->name = new std::string(G.getName().str());
    g_gaddr[&G] = o->addr;
    if (ro)
      g_ro.push_back(ObjRef(o));
    else
      S->heap.push_back(ObjRef(o));
    todo.push_back({&G, o});
  }
  for (auto &t : todo) {
    if (t.first->hasInitializer()) {
      std::vector<Val> vs;
      Constant *C = t.first->getInitializer();
      if (isa<ConstantAggregateZero>(C))
        continue;
      const_leaves(C, vs);
      auto *ls = leaves(C->getType());
      if (ls->size() != vs.size())
        die("initialiser shape " + t.first->getName().str());
      for (size_t i = 0; i < vs.size(); i++)
        store_obj(t.second, (*ls)[i].off, (*ls)[i].w, vs[i]);
    } else if (t.first->getName() == "__libc_single_threaded") {
      t.second->data[0] = 1;
    }
    t.second->ro = t.first->isConstant() && t.first->hasInitializer();
  }
}

// ------------------------------------------------------------------------------------------------ decoding
static Opnd mkop(DFunc *D, Value *V)
{
  Opnd o;
  if (auto *C = dyn_cast<Constant>(V)) {
    std::vector<Val> vs;
    const_leaves(C, vs);
    o.n = vs.size();
    if (vs.size() == 1)
      o.cv = vs[0];
    else
      o.cvs = new std::vector<Val>(vs);
    return o;
  }
  auto it = D->slot.find(V);
  if (it == D->slot.end()) {
    if (isa<MetadataAsValue>(V) || isa<BasicBlock>(V) || isa<InlineAsm>(V)) {
      o.n = 0;
      return o;
    }
    die("no slot for operand");
  }
  o.slot = it->second;
  o.n    = leaves(V->getType())->size();
  return o;
}
static unsigned scalar_w(Type *T)
{
  if (T->isPointerTy() || (T->isVectorTy() && T->getScalarType()->isPointerTy()))
    return 64;
  if (T->isVectorTy())
    return T->getScalarSizeInBits();
  if (T->isIntegerTy())
    return T->getIntegerBitWidth();
  if (T->isDoubleTy())
    return 64;
  if (T->isFloatTy())
    return 32;
  return 0;
}
static DFunc *decode(Function *F)
{
  auto &d = g_dfuncs[F];
  if (d)
    return d;
  d         = new DFunc;
  d->F      = F;
  d->pretty = demangle1(F->getName().str());
  if (auto *SP = F->getSubprogram()) {
    std::string fn = (SP->getFilename()).str();
    if (fn.find("/repo/") != std::string::npos || (SP->getDirectory() + "/" + SP->getFilename()).str().find("/repo/code") != std::string::npos)
      d->repo = true;
  }
  int n = 0;
  for (auto &A : F->args()) {
    d->slot[&A] = n;
    n += leaves(A.getType())->size();
  }
  for (auto &B : *F)
    for (auto &I : B)
      if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) {
        d->slot[&I] = n;
        n += leaves(I.getType())->size();
      }
  d->nslots = n;
  std::unordered_map<BasicBlock *, int> bi;
  int k = 0;
  for (auto &B : *F)
    bi[&B] = k++;
  d->blocks.resize(k);
  k = 0;
  for (auto &B : *F) {
    DBlock &db = d->blocks[k++];
    db.bb      = &B;
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I))
        continue;
      DInst di;
      di.I   = &I;
      di.opc = I.getOpcode();
      if (!I.getType()->isVoidTy()) {
        di.dst = d->slot[&I];
        di.nd  = leaves(I.getType())->size();
        di.w   = scalar_w(I.getType());
      }
      switch (I.getOpcode()) {
      case Instruction::PHI: {
        auto &P = cast<PHINode>(I);
        for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
          di.ops.push_back(mkop(d, P.getIncomingValue(i)));
          di.succ.push_back(bi[P.getIncomingBlock(i)]);
        }
        break;
      }
      case Instruction::Br: {
        auto &Bi = cast<BranchInst>(I);
        if (Bi.isConditional())
          di.ops.push_back(mkop(d, Bi.getCondition()));
        for (unsigned i = 0; i < Bi.getNumSuccessors(); i++)
          di.succ.push_back(bi[Bi.getSuccessor(i)]);
        break;
      }
      case Instruction::Switch: {
        auto &Sw = cast<SwitchInst>(I);
        di.ops.push_back(mkop(d, Sw.getCondition()));
        di.w2 = scalar_w(Sw.getCondition()->getType());
        di.succ.push_back(bi[Sw.getDefaultDest()]);
        for (auto &c : Sw.cases()) {
          di.ops.push_back(mkop(d, c.getCaseValue()));
          di.succ.push_back(bi[c.getCaseSuccessor()]);
        }
        break;
      }
      case Instruction::Invoke:
      case Instruction::Call: {
        auto &CB  = cast<CallBase>(I);
        di.callee = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
        if (auto *GA = dyn_cast<GlobalAlias>(CB.getCalledOperand()->stripPointerCasts()))
          di.callee = dyn_cast<Function>(GA->getAliaseeObject());
        for (auto &a : CB.args()) {
          if (isa<MetadataAsValue>(a)) {
            Opnd o;
            o.n = 0;
            di.ops.push_back(o);
          } else
            di.ops.push_back(mkop(d, a));
        }
        if (!di.callee && !CB.isInlineAsm())
          di.ops.push_back(mkop(d, CB.getCalledOperand()));
        if (auto *II = dyn_cast<InvokeInst>(&I)) {
          di.succ.push_back(bi[II->getNormalDest()]);
          di.succ.push_back(bi[II->getUnwindDest()]);
        }
        break;
      }
      case Instruction::GetElementPtr: {
        auto &G = cast<GetElementPtrInst>(I);
        if (I.getType()->isVectorTy())
          die("vector gep");
        di.ops.push_back(mkop(d, G.getPointerOperand()));
        for (auto gti = gep_type_begin(G); gti != gep_type_end(G); ++gti) {
          Value *idx = gti.getOperand();
          if (StructType *STy = gti.getStructTypeOrNull()) {
            di.off += DL->getStructLayout(STy)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          } else {
            int64_t sc = gti.getSequentialElementStride(*DL).getFixedValue();
            if (auto *CI = dyn_cast<ConstantInt>(idx))
              di.off += CI->getSExtValue() * sc;
            else {
              di.ops.push_back(mkop(d, idx));
              di.scaled.push_back({(int)di.ops.size() - 1, sc});
              di.succ.push_back(scalar_w(idx->getType())); // width of the index
            }
          }
        }
        break;
      }
      case Instruction::Load:
        di.ops.push_back(mkop(d, I.getOperand(0)));
        di.leaves = leaves(I.getType());
        di.pred   = I.getType()->isPointerTy();
        break;
      case Instruction::Store:
        di.ops.push_back(mkop(d, I.getOperand(0)));
        di.ops.push_back(mkop(d, I.getOperand(1)));
        di.leaves = leaves(I.getOperand(0)->getType());
        break;
      case Instruction::ICmp:
      case Instruction::FCmp:
        di.pred = cast<CmpInst>(I).getPredicate();
        [[fallthrough]];
      default:
        for (auto &o : I.operands())
          if (!isa<BasicBlock>(o))
            di.ops.push_back(mkop(d, o));
        if (I.getNumOperands() && !I.getOperand(0)->getType()->isVoidTy() && !I.getOperand(0)->getType()->isLabelTy())
          di.w2 = scalar_w(I.getOperand(0)->getType());
        if (isa<AllocaInst>(I))
          di.off = DL->getTypeAllocSize(cast<AllocaInst>(I).getAllocatedType()).getFixedValue();
        break;
      }
      db.code.push_back(std::move(di));
    }
  }
  return d;
}

// ------------------------------------------------------------------------------------------------ execution helpers
static inline Val getv(Frame &f, Opnd const &o, int i = 0)
{
  if (o.slot >= 0)
    return f.regs[o.slot + i];
  if (o.cvs)
    return (*o.cvs)[i];
  return o.cv;
}
static void pop_frame()
{
  auto fr = S->frames.back();
  if (!fr->allocas.empty()) {
    // stack objects of this frame are at the tail
    size_t n = fr->allocas.size();
    while (n && !S->stack.empty() && S->stack.back()->addr >= fr->allocas[0]) {
      S->stack.pop_back();
    }
  }
  S->frames.pop_back();
}
static void push_call(DInst *call, Function *F, std::vector<Val> const &args)
{
  DFunc *d = decode(F);
  g_used.insert(d);
  d->blocks[0].seen = true;
  if (S->frames.size() > 400)
    path_error("limit", "call depth exceeds 400 (unbounded recursion)");
  auto fr  = std::make_shared<Frame>();
  fr->f    = d;
  fr->call = call;
  fr->regs.resize(d->nslots);
  for (size_t i = 0; i < args.size() && i < (size_t)d->nslots; i++)
    fr->regs[i] = args[i];
  S->frames.push_back(fr);
}
static void set_res(DInst *di, Frame &f, Val v, int i = 0)
{
  if (di->dst >= 0)
    f.regs[di->dst + i] = v;
}
static void goto_bb(Frame &f, int bb)
{
  f.prev = f.bb;
  f.bb   = bb;
  f.ip   = 0;
  f.f->blocks[bb].seen = true;
  // phis
  auto &code = f.f->blocks[bb].code;
  static std::vector<Val> tmp;
  tmp.clear();
  size_t n = 0;
  while (n < code.size() && code[n].opc == Instruction::PHI) {
    auto &p = code[n];
    size_t k = 0;
    while (k < p.succ.size() && p.succ[k] != f.prev)
      k++;
    if (k == p.succ.size())
      die("phi");
    for (int i = 0; i < p.nd; i++)
      tmp.push_back(getv(f, p.ops[k], i));
    n++;
  }
  size_t t = 0;
  for (size_t i = 0; i < n; i++)
    for (int j = 0; j < code[i].nd; j++)
      f.regs[code[i].dst + j] = tmp[t++];
  f.ip = n;
}
static void finish_call(DInst *di, Val *res, int n)
{
  // current top frame is the caller, positioned at the call
  Frame &f = S->top();
  for (int i = 0; i < n && di->dst >= 0; i++)
    f.regs[di->dst + i] = res[i];
  if (di->opc == Instruction::Invoke)
    goto_bb(f, di->succ[0]);
  else
    f.ip++;
}

// ---- exceptions ----
static std::unordered_map<u64, int> g_tid;
static int type_id(u64 ti)
{
  auto it = g_tid.find(ti);
  if (it != g_tid.end())
    return it->second;
  int n = g_tid.size() + 1;
  return g_tid[ti] = n;
}
static std::unordered_map<u64, GlobalVariable *> g_addr_gv;
static bool ti_matches(GlobalVariable *thrown, GlobalVariable *want)
{
  if (thrown == want || thrown->getName() == want->getName())
    return true;
  static const std::map<std::string, std::string> ext = {
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"},     {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt11logic_error", "_ZTISt9exception"},         {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"},    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"},            {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"},   {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
    {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
  if (thrown->hasInitializer()) {
    for (auto &o : thrown->getInitializer()->operands())
      if (auto *g = dyn_cast<GlobalVariable>(o->stripPointerCasts()))
        if (g->getName().starts_with("_ZTI") && ti_matches(g, want))
          return true;
  } 
  std::string n = thrown->getName().str();
  while (true) {
    auto it = ext.find(n);
    if (it == ext.end())
      return false;
    n = it->second;
    if (n == want->getName())
      return true;
  }
}
static void do_unwind()
{
  // S->exc / exc_ti are set. Check there is a handler first.
  GlobalVariable *thrown = g_addr_gv[S->exc_ti];
  auto match_pad = [&](LandingPadInst *LP, u64 &sel, bool &caught) -> bool {
    caught = false;
    for (unsigned i = 0; i < LP->getNumClauses(); i++) {
      if (LP->isCatch(i)) {
        Constant *C = LP->getClause(i);
        if (isa<ConstantPointerNull>(C)) {
          sel    = type_id(0);
          caught = true;
          return true;
        }
        auto *g = dyn_cast<GlobalVariable>(C->stripPointerCasts());
        if (g && thrown && ti_matches(thrown, g)) {
          sel    = type_id(g_gaddr[g]);
          caught = true;
          return true;
        }
      }
    }
    sel = 0;
    return LP->isCleanup();
  };
  bool handled = false;
  for (size_t i = S->frames.size(); i-- > 0 && !handled;) {
    DInst *call = i + 1 < S->frames.size() ? S->frames[i + 1]->call : &S->frames[i]->f->blocks[S->frames[i]->bb].code[S->frames[i]->ip];
    if (call && call->opc == Instruction::Invoke) {
      auto *II = cast<InvokeInst>(call->I);
      u64 sel;
      bool c;
      if (match_pad(II->getLandingPadInst(), sel, c) && c)
        handled = true;
    }
  }
  if (!handled)
    path_error("exception", "uncaught exception of type " + (thrown ? demangle1(thrown->getName().str()) : std::string("?")));
  DInst *call = nullptr;
  while (!S->frames.empty()) {
    Frame &f = S->top();
    if (!call)
      call = &f.f->blocks[f.bb].code[f.ip];
    if (call->opc == Instruction::Invoke) {
      auto *II = cast<InvokeInst>(call->I);
      u64 sel;
      bool c;
      if (match_pad(II->getLandingPadInst(), sel, c)) {
        goto_bb(f, call->succ[1]);
        DInst &lp = f.f->blocks[f.bb].code[f.ip];
        f.regs[lp.dst]     = vc(S->exc);
        f.regs[lp.dst + 1] = vc(sel);
        f.ip++;
        return;
      }
    }
    call = S->frames.back()->call;
    pop_frame();
  }
  die("unwind fell off the stack");
}
static void throw_obj(u64 obj, u64 ti)
{
  S->exc           = obj;
  S->exc_ti        = ti;
  S->exc_type[obj] = ti;
  do_unwind();
}
static u64 ti_by_name(const char *n)
{
  GlobalVariable *g = M->getNamedGlobal(n);
  return g ? g_gaddr[g] : 0;
}
static void throw_std(const char *tiname)
{
  u64 ti = ti_by_name(tiname);
  u64 o  = new_obj(16, 16, KExc);
  if (!ti) {
    // no handler for this exact type can exist, but catch(...) or a base class may: make a synthetic typeinfo
    auto *g     = new GlobalVariable(*M, Type::getInt8Ty(M->getContext()), true, GlobalValue::ExternalLinkage, nullptr, tiname);
    u64 a       = FUNC_BASE + 0x100000000ull + 16 * g_gaddr.size();
    g_gaddr[g]  = a;
    g_addr_gv[a] = g;
    ti          = a;
  }
  throw_obj(o, ti);
}

// ------------------------------------------------------------------------------------------------ external functions
typedef std::vector<Val> Args;
// returns true when handled and the call was completed (result in r/nr); control transfers throw or set *moved
struct ExtCtx {
  DInst *di;
  Args const &a;
  Val r[4];
  int nr     = 0;
  bool moved = false;
};
typedef std::function<void(ExtCtx &)> ExtFn;
static std::unordered_map<std::string, ExtFn> g_ext;

static Expr *bool_of(Val v, unsigned w) { return v.e ? (w == 1 ? v.e : e_not(e_eq(v.e, e_const(w, 0)))) : e_const(1, (v.c & m64(w)) != 0); }

static Expr *fresh(std::string const &name, unsigned w)
{
  Expr *v = e_var(S->nvars++, name, w);
  S->inputs.push_back({name, v});
  size_t id = (size_t)v->c;
  if (S->model.size() <= id)
    S->model.resize(id + 1, 0);
  S->model[id] = 0;
  return v;
}
static u64 cv(ExtCtx &c, int i, unsigned w, const char *what) { return concretize(c.a[i], w, what); }

static void do_free(u64 a, int tag)
{
  if (!a)
    return;
  ObjRef *o = find_obj(a);
  if (!o || (*o)->addr != a || (*o)->kind != KHeap)
    path_error("memory", "free/delete of an address that is not a live heap allocation (double free or bad pointer)");
  if ((*o)->tag != tag)
    path_error("memory", "mismatched allocation and deallocation functions");
  S->live--;
  S->heap.erase(S->heap.begin() + (o - &S->heap[0]));
}
static u64 do_alloc(u64 n, u64 align, int tag)
{
  if (n > (1ull << 24))
    path_incomplete("allocation larger than 16 MiB");
  S->live++;
  return new_obj(n, align, KHeap, tag);
}

static void do_check(Val v, unsigned w, std::string const &msg)
{
  Expr *c = bool_of(v, w);
  if (c->is_const()) {
    st.checks_conc++;
    if (!c->c)
      path_error("check", msg);
    return;
  }
  st.checks_sym++;
  Expr *n = e_not(c);
  Model m;
  Res r;
  if (eval_model(*S, n)) {
    m = S->model;
    r = SAT;
  } else
    r = query(*S, n, m, true);
  if (r == UNKNOWN)
    path_incomplete("solver unknown on check " + msg);
  if (r == SAT) {
    st.errors++;
    violation("check", msg, m);
    // continue with the condition assumed
    assume(c);
  }
}

static void init_ext()
{
  auto X = [](const char *n, ExtFn f) { g_ext[n] = f; };
  X("sym_u64", [](ExtCtx &c) { c.r[0] = ve(fresh(read_cstr(c.a[0].c), 64)); c.nr = 1; });
  X("sym_u32", [](ExtCtx &c) { c.r[0] = ve(fresh(read_cstr(c.a[0].c), 32)); c.nr = 1; });
  X("sym_u16", [](ExtCtx &c) { c.r[0] = ve(fresh(read_cstr(c.a[0].c), 16)); c.nr = 1; });
  X("sym_u8", [](ExtCtx &c) { c.r[0] = ve(fresh(read_cstr(c.a[0].c), 8)); c.nr = 1; });
  X("sym_bytes", [](ExtCtx &c) {
    u64 p = c.a[0].c, n = c.a[1].c;
    std::string nm = read_cstr(c.a[2].c);
    if (n) {
      ObjRef *o = check_access(p, n, true);
      Obj *w    = writable(*o);
      for (u64 i = 0; i < n; i++)
        store_obj(w, p - w->addr + i, 8, ve(fresh(nm + "[" + std::to_string(i) + "]", 8)));
    }
  });
  auto pick = [](ExtCtx &c, bool split) {
    u64 n = c.a[0].c;
    std::string nm = read_cstr(c.a[1].c);
    Expr *v = fresh(nm, 32);
    // A run is one of splitn shards. Each value of a split belongs to the shards k with k % n == value, which share the work
    // below it at later splits; with more values than shards the values are dealt out.
    std::vector<u64> vals;
    int sk = S->splitk < 0 ? g_splitk : S->splitk, sn = S->splitk < 0 ? g_splitn : S->splitn;
    if (split && n) {
      if (n >= (u64)sn) {
        for (u64 i = sk; i < n; i += sn)
          vals.push_back(i);
        S->splitk = 0;
        S->splitn = 1;
      } else {
        vals.push_back(sk % n);
        S->splitn = (sn - sk % (int)n + (int)n - 1) / (int)n;
        S->splitk = sk / (int)n;
      }
    } else
      for (u64 i = 0; i < n; i++)
        vals.push_back(i);
    if (vals.empty()) {
      st.killed++;
      throw PathEnd{};
    }
    // fork all but the first; they must complete the call with their own value
    for (size_t k = vals.size(); k-- > 1;) {
      State *o = fork_state(*S);
      State *save = S;
      S = o;
      o->model[(size_t)v->c] = vals[k];
      add_pc(*o, e_eq(v, e_const(32, vals[k])));
      Val r = vc(vals[k]);
      finish_call(c.di, &r, 1);
      S = save;
      g_work.push_back(o);
    }
    S->model[(size_t)v->c] = vals[0];
    add_pc(*S, e_eq(v, e_const(32, vals[0])));
    c.r[0] = vc(vals[0]);
    c.nr   = 1;
  };
  X("sym_pick", [pick](ExtCtx &c) { pick(c, false); });
  X("sym_split", [pick](ExtCtx &c) { pick(c, true); });
  X("sym_assume", [](ExtCtx &c) { assume(bool_of(c.a[0], 1)); });
  X("sym_check", [](ExtCtx &c) { do_check(c.a[0], 1, read_cstr(c.a[1].c)); });
  X("sym_fail", [](ExtCtx &c) { path_error("check", read_cstr(c.a[0].c)); });
  X("sym_observe", [](ExtCtx &c) { S->obs.push_back(c.a[0]); });
  X("sym_reach", [](ExtCtx &c) { g_reach[read_cstr(c.a[0].c)]++; });
  X("sym_concrete", [](ExtCtx &c) { c.r[0] = vc(cv(c, 0, 64, "sym_concrete")); c.nr = 1; });
  X("sym_stop", [](ExtCtx &) { st.killed++; throw PathEnd{}; });
  X("sym_heap_live", [](ExtCtx &c) { c.r[0] = vc((u64)S->live); c.nr = 1; });
  X("sym_heap_mode", [](ExtCtx &c) { S->symmax = c.a[0].c; });
  X("sym_valid", [](ExtCtx &c) { // the n bytes at p are inside one live object
    Expr *p = ex(c.a[0], 64), *n = ex(c.a[1], 64);
    u64 a   = eval_model(*S, p);
    ObjRef *o = find_obj(a);
    if (!o)
      o = find_obj(a - 1); // the end of an object is a valid address for no bytes
    Expr *ok  = e_const(1, 0);
    if (o) {
      Expr *off = e_bin(OSub, p, e_const(64, (*o)->addr)), *sz = (*o)->ssize ? (*o)->ssize : e_const(64, (*o)->size);
      ok        = e_bin(OAnd, e_bin(OUle, off, sz), e_bin(OUle, n, e_bin(OSub, sz, off)));
    }
    do_check(ok->is_const() ? vc(ok->c) : ve(ok), 1, read_cstr(c.a[2].c));
  });
  X("sym_native", [](ExtCtx &c) { c.r[0] = vc(0); c.nr = 1; });
  X("sym_debug", [](ExtCtx &c) {
    fprintf(stderr, "debug %s = %s\n", read_cstr(c.a[0].c).c_str(), c.a[1].e ? e_str(c.a[1].e).c_str() : std::to_string(c.a[1].c).c_str());
  });
  // allocation
  auto A = [&](const char *n, int tag, int alignarg) {
    g_ext[n] = [tag, alignarg](ExtCtx &c) {
      u64 al = alignarg >= 0 ? cv(c, alignarg, 64, "alignment") : 16;
      if (S->symmax && !conc(c.a[0])) {
        Expr *n  = c.a[0].e;
        Expr *tl = e_bin(OUlt, e_const(64, S->symmax), n);
        Model m;
        if (!(tl->is_const() && !tl->c) && query(*S, tl, m) != UNSAT)
          path_incomplete("symbolic allocation size above the declared maximum");
        u64 p              = do_alloc(S->symmax, al, tag);
        find_obj(p)->p->ssize = n;
        c.r[0]             = vc(p);
        c.nr               = 1;
        return;
      }
      c.r[0] = vc(do_alloc(cv(c, 0, 64, "allocation size"), al, tag));
      c.nr   = 1;
    };
  };
  A("malloc", 0, -1);
  A("_Znwm", 1, -1);
  A("_Znam", 2, -1);
  A("_ZnwmRKSt9nothrow_t", 1, -1);
  A("_ZnamRKSt9nothrow_t", 2, -1);
  A("_ZnwmSt11align_val_t", 1, 1);
  A("_ZnamSt11align_val_t", 2, 1);
  X("calloc", [](ExtCtx &c) {
    u64 n  = cv(c, 0, 64, "allocation size") * cv(c, 1, 64, "allocation size");
    u64 p  = do_alloc(n, 16, 0);
    Obj *o = writable(*find_obj(p));
    std::fill(o->data.begin(), o->data.end(), 0);
    c.r[0] = vc(p);
    c.nr   = 1;
  });
  X("aligned_alloc", [](ExtCtx &c) { c.r[0] = vc(do_alloc(cv(c, 1, 64, "allocation size"), cv(c, 0, 64, "alignment"), 0)); c.nr = 1; });
  X("posix_memalign", [](ExtCtx &c) {
    u64 al = cv(c, 1, 64, "alignment"), n = cv(c, 2, 64, "allocation size");
    mem_store(c.a[0], 64, 8, vc(do_alloc(n, al, 0)));
    c.r[0] = vc(0);
    c.nr   = 1;
  });
  auto FR = [&](const char *n, int tag) { g_ext[n] = [tag](ExtCtx &c) { do_free(cv(c, 0, 64, "pointer to free"), tag); }; };
  FR("free", 0);
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"})
    FR(n, 1);
  for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"})
    FR(n, 2);
  X("malloc_usable_size", [](ExtCtx &c) {
    u64 a = cv(c, 0, 64, "pointer");
    ObjRef *o = find_obj(a);
    c.r[0] = vc(o ? (*o)->size : 0);
    c.nr = 1;
  });
  // exceptions
  X("__cxa_allocate_exception", [](ExtCtx &c) { c.r[0] = vc(new_obj(std::max<u64>(c.a[0].c, 16), 16, KExc)); c.nr = 1; });
  X("__cxa_free_exception", [](ExtCtx &) {});
  X("__cxa_throw", [](ExtCtx &c) { c.moved = true; throw_obj(c.a[0].c, c.a[1].c); });
  X("__cxa_rethrow", [](ExtCtx &c) {
    if (S->caught.empty())
      path_error("exception", "rethrow without a current exception");
    c.moved = true;
    auto p  = S->caught.back();
    throw_obj(p.first, p.second);
  });
  X("__cxa_begin_catch", [](ExtCtx &c) {
    S->caught.push_back({c.a[0].c, S->exc_type.count(c.a[0].c) ? S->exc_type[c.a[0].c] : 0});
    c.r[0] = c.a[0];
    c.nr   = 1;
  });
  X("__cxa_get_exception_ptr", [](ExtCtx &c) { c.r[0] = c.a[0]; c.nr = 1; });
  X("__cxa_end_catch", [](ExtCtx &) { if (!S->caught.empty()) S->caught.pop_back(); });
  X("__cxa_guard_acquire", [](ExtCtx &c) {
    Val g  = mem_load(c.a[0], 8, 1, false);
    c.r[0] = vc(conc(g) && g.c == 0 ? 1 : 0);
    c.nr   = 1;
  });
  X("__cxa_guard_release", [](ExtCtx &c) { mem_store(c.a[0], 8, 1, vc(1)); });
  X("__cxa_guard_abort", [](ExtCtx &) {});
  X("__cxa_atexit", [](ExtCtx &c) { c.r[0] = vc(0); c.nr = 1; });
  X("atexit", [](ExtCtx &c) { c.r[0] = vc(0); c.nr = 1; });
  X("__cxa_thread_atexit", [](ExtCtx &c) { c.r[0] = vc(0); c.nr = 1; });
  X("__cxa_pure_virtual", [](ExtCtx &) { path_error("abort", "pure virtual call"); });
  X("__cxa_throw_bad_array_new_length", [](ExtCtx &c) { c.moved = true; throw_std("_ZTISt20bad_array_new_length"); });
  X("_ZSt9terminatev", [](ExtCtx &) { path_error("abort", "std::terminate called"); });
  X("abort", [](ExtCtx &) { path_error("abort", "abort called"); });
  X("__assert_fail", [](ExtCtx &c) { path_error("abort", "assertion failed: " + read_cstr(c.a[0].c)); });
  X("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](ExtCtx &c) { path_error("abort", "glibcxx assertion failed"); });
  auto TH = [&](const char *fn, const char *ti) { g_ext[fn] = [ti](ExtCtx &c) { c.moved = true; throw_std(ti); }; };
  TH("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error");
  TH("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error");
  TH("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range");
  TH("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range");
  TH("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument");
  TH("_ZSt20__throw_domain_errorPKc", "_ZTISt12domain_error");
  TH("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error");
  TH("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc");
  TH("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length");
  TH("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast");
  TH("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call");
  TH("_ZSt20__throw_system_errori", "_ZTISt12system_error");
  // exception class constructors/destructors: the payload text is not modelled
  for (auto k : {"11logic_error", "13runtime_error", "16invalid_argument", "12domain_error", "12length_error", "12out_of_range", "11range_error",
                 "14overflow_error"}) {
    for (auto c : {"C1EPKc", "C2EPKc", "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                   "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "C1ERKS_", "C2ERKS_", "D1Ev", "D2Ev", "D0Ev"})
      g_ext[std::string("_ZNSt") + k + c] = [](ExtCtx &) {};
  }
  for (auto n : {"_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD0Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"})
    g_ext[n] = [](ExtCtx &) {};
}

// ------------------------------------------------------------------------------------------------ intrinsics & calls
static double as_d(u64 v)
{
  double d;
  memcpy(&d, &v, 8);
  return d;
}
static u64 d_as(double d)
{
  u64 v;
  memcpy(&v, &d, 8);
  return v;
}

static void exec_call(DInst *di);

static Val bin(unsigned opc, Val a, Val b, unsigned w);

static void intrinsic(DInst *di, Function *F, Args &a)
{
  Val r[8];
  int nr     = 0;
  unsigned w = di->w;
  auto id    = F->getIntrinsicID();
  switch (id) {
  case Intrinsic::lifetime_start:
  case Intrinsic::lifetime_end:
  case Intrinsic::assume:
  case Intrinsic::donothing:
  case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::invariant_start:
  case Intrinsic::invariant_end:
  case Intrinsic::dbg_declare:
  case Intrinsic::dbg_value:
  case Intrinsic::prefetch:
  case Intrinsic::stackrestore:
    break;
  case Intrinsic::stacksave:
    r[nr++] = vc(0);
    break;
  case Intrinsic::memcpy:
  case Intrinsic::memmove: {
    u64 n = concretize(a[2], 64, "memcpy size");
    u64 d = concretize(a[0], 64, "memcpy destination"), s = concretize(a[1], 64, "memcpy source");
    mem_copy(d, s, n);
    break;
  }
  case Intrinsic::memset: {
    u64 n = concretize(a[2], 64, "memset size");
    u64 d = concretize(a[0], 64, "memset destination");
    if (n) {
      ObjRef *o = check_access(d, n, true);
      Obj *ob   = writable(*o);
      for (u64 i = 0; i < n; i++)
        store_obj(ob, d - ob->addr + i, 8, a[1]);
    }
    break;
  }
  case Intrinsic::expect:
  case Intrinsic::launder_invariant_group:
  case Intrinsic::strip_invariant_group:
  case Intrinsic::threadlocal_address:
  case Intrinsic::ssa_copy:
    r[nr++] = a[0];
    break;
  case Intrinsic::is_constant:
    r[nr++] = vc(0);
    break;
  case Intrinsic::objectsize:
    r[nr++] = vc(conc(a[1]) && a[1].c ? 0 : ~0ull);
    break;
  case Intrinsic::trap:
  case Intrinsic::debugtrap:
    path_error("ub", "trap executed");
  case Intrinsic::ubsantrap: {
    static const std::map<u64, std::string> names = {{0, "add overflow"}, {1, "builtin unreachable"}, {3, "divrem overflow"}, {4, "dynamic type cache miss"},
                                                    {5, "float cast overflow"}, {12, "missing return"}, {13, "mul overflow"}, {14, "negate overflow"},
                                                    {18, "out of bounds index"}, {19, "pointer overflow"}, {20, "shift out of bounds"}, {21, "sub overflow"}, {22, "type mismatch"}, {24, "vla bound"}};
    auto it = names.find(a[0].c & 0xff);
    path_error("ub", "undefined behaviour: " + (it == names.end() ? "kind " + std::to_string(a[0].c & 0xff) : it->second));
  }
  case Intrinsic::eh_typeid_for:
    r[nr++] = vc(type_id(a[0].c));
    break;
  case Intrinsic::umin:
  case Intrinsic::umax:
  case Intrinsic::smin:
  case Intrinsic::smax: {
    Expr *x = ex(a[0], w), *y = ex(a[1], w);
    Expr *c = (id == Intrinsic::umin || id == Intrinsic::umax) ? e_bin(OUlt, x, y) : e_bin(OSlt, x, y);
    bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
    r[nr++] = ve(mn ? e_ite(c, x, y) : e_ite(c, y, x));
    break;
  }
  case Intrinsic::abs: {
    Expr *x = ex(a[0], w);
    r[nr++] = ve(e_ite(e_bin(OSlt, x, e_const(w, 0)), e_bin(OSub, e_const(w, 0), x), x));
    break;
  }
  case Intrinsic::bswap: {
    Expr *x = ex(a[0], w), *o = nullptr;
    for (unsigned i = 0; i < w / 8; i++) {
      Expr *b = e_extract(x, i * 8, 8);
      o       = o ? e_concat(o, b) : b;
    }
    r[nr++] = ve(o);
    break;
  }
  case Intrinsic::bitreverse: {
    Expr *x = ex(a[0], w), *o = nullptr;
    for (unsigned i = 0; i < w; i++) {
      Expr *b = e_extract(x, i, 1);
      o       = o ? e_concat(o, b) : b;
    }
    r[nr++] = ve(o);
    break;
  }
  case Intrinsic::ctpop: {
    Expr *x = ex(a[0], w), *o = e_const(w, 0);
    for (unsigned i = 0; i < w; i++)
      o = e_bin(OAdd, o, e_zext(e_extract(x, i, 1), w));
    r[nr++] = ve(o);
    break;
  }
  case Intrinsic::ctlz: {
    Expr *x = ex(a[0], w), *o = e_const(w, w);
    for (unsigned i = 0; i < w; i++)
      o = e_ite(e_extract(x, i, 1), e_const(w, w - 1 - i), o);
    r[nr++] = ve(o);
    break;
  }
  case Intrinsic::cttz: {
    Expr *x = ex(a[0], w), *o = e_const(w, w);
    for (unsigned i = w; i-- > 0;)
      o = e_ite(e_extract(x, i, 1), e_const(w, i), o);
    r[nr++] = ve(o);
    break;
  }
  case Intrinsic::fshl:
  case Intrinsic::fshr: {
    Expr *x = ex(a[0], w), *y = ex(a[1], w), *s = ex(a[2], w);
    if (w > 64) {
      path_incomplete("wide funnel shift");
    }
    Expr *c  = e_concat(x, y);
    Expr *sm = e_bin(OURem, s, e_const(w, w));
    if (id == Intrinsic::fshl)
      r[nr++] = ve(e_extract(e_bin(OShl, c, e_zext(sm, 2 * w)), w, w));
    else
      r[nr++] = ve(e_extract(e_bin(OLShr, c, e_zext(sm, 2 * w)), 0, w));
    break;
  }
  case Intrinsic::uadd_sat: {
    Expr *x = ex(a[0], w), *y = ex(a[1], w), *sum = e_bin(OAdd, x, y);
    r[nr++] = ve(e_ite(e_bin(OUlt, sum, x), e_const(w, ~(u128)0), sum));
    break;
  }
  case Intrinsic::usub_sat: {
    Expr *x = ex(a[0], w), *y = ex(a[1], w);
    r[nr++] = ve(e_ite(e_bin(OUlt, x, y), e_const(w, 0), e_bin(OSub, x, y)));
    break;
  }
  case Intrinsic::uadd_with_overflow:
  case Intrinsic::usub_with_overflow:
  case Intrinsic::umul_with_overflow:
  case Intrinsic::sadd_with_overflow:
  case Intrinsic::ssub_with_overflow:
  case Intrinsic::smul_with_overflow: {
    w       = (*leaves(di->I->getType()))[0].w;
    Expr *x = ex(a[0], w), *y = ex(a[1], w), *v, *o;
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    if (id == Intrinsic::uadd_with_overflow) {
      v = e_bin(OAdd, x, y);
      o = e_bin(OUlt, v, x);
    } else if (id == Intrinsic::usub_with_overflow) {
      v = e_bin(OSub, x, y);
      o = e_bin(OUlt, x, y);
    } else if (id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow) {
      bool add  = id == Intrinsic::sadd_with_overflow;
      v         = e_bin(add ? OAdd : OSub, x, y);
      Expr *sxx = e_extract(x, w - 1, 1), *sy = e_extract(y, w - 1, 1), *sv = e_extract(v, w - 1, 1);
      if (add)
        o = e_bin(OAnd, e_eq(sxx, sy), e_not(e_eq(sxx, sv)));
      else
        o = e_bin(OAnd, e_not(e_eq(sxx, sy)), e_not(e_eq(sxx, sv)));
    } else {
      if (w > 64)
        path_incomplete("wide multiply overflow");
      v        = e_bin(OMul, x, y);
      if (!sg && y->is_const()) {
        o = y->c == 0 ? e_false() : e_bin(OUlt, e_const(w, mask_of(w) / y->c), x);
      } else if (!sg && x->is_const()) {
        o = x->c == 0 ? e_false() : e_bin(OUlt, e_const(w, mask_of(w) / x->c), y);
      } else {
        Expr *xx = sg ? e_sext(x, 2 * w) : e_zext(x, 2 * w), *yy = sg ? e_sext(y, 2 * w) : e_zext(y, 2 * w);
        Expr *f = e_bin(OMul, xx, yy);
        o = sg ? e_not(e_eq(f, e_sext(v, 2 * w))) : e_not(e_eq(e_extract(f, w, w), e_const(w, 0)));
      }
    }
    r[nr++] = ve(v);
    r[nr++] = ve(o);
    break;
  }
  case Intrinsic::ptrmask:
    r[nr++] = ve(e_bin(OAnd, ex(a[0], 64), ex(a[1], 64)));
    break;
  case Intrinsic::load_relative: {
    Val base = a[0];
    Val off  = mem_load(ve(e_bin(OAdd, ex(a[0], 64), e_sext(ex(a[1], scalar_w(di->I->getOperand(1)->getType())), 64))), 32, 4, false);
    r[nr++]  = ve(e_bin(OAdd, ex(base, 64), e_sext(ex(off, 32), 64)));
    break;
  }
  case Intrinsic::fabs:
    if (!conc(a[0])) {
      if (w != 64)
        path_incomplete("symbolic single precision floating point");
      r[nr++] = ve(e_fabs(ex(a[0], 64)));
      break;
    }
    r[nr++] = w == 64 ? vc(a[0].c & ~(1ull << 63)) : vc(a[0].c & 0x7fffffff);
    break;
  case Intrinsic::is_fpclass: {
    if (!conc(a[0])) {
      Expr *z, *ng, *x = ex(a[0], 64), *res = e_false();
      unsigned t = (unsigned)a[1].c;
      if (scalar_w(di->I->getOperand(0)->getType()) != 64)
        path_incomplete("symbolic single precision floating point");
      auto cls = [&](unsigned bit, Expr *c) {
        if (t & bit)
          res = e_bin(OOr, res, c);
      };
      auto And = [](Expr *p, Expr *q) { return e_bin(OAnd, p, q); };
      if (e_fix_class(x, &z, &ng)) {
        cls(8, ng);
        cls(0x100, And(e_not(z), e_not(ng)));
        cls(0x40, z);
      } else {
        Expr *s = e_extract(x, 63, 1), *e = e_extract(x, 52, 11), *m = e_extract(x, 0, 52);
        Expr *e0 = e_eq(e, e_const(11, 0)), *e1 = e_eq(e, e_const(11, 2047)), *m0 = e_eq(m, e_const(52, 0));
        cls(1, And(And(e1, e_not(m0)), e_not(e_extract(x, 51, 1))));
        cls(2, And(e1, e_extract(x, 51, 1)));
        cls(4, And(And(e1, m0), s));
        cls(8, And(And(e_not(e0), e_not(e1)), s));
        cls(0x10, And(And(e0, e_not(m0)), s));
        cls(0x20, And(And(e0, m0), s));
        cls(0x40, And(And(e0, m0), e_not(s)));
        cls(0x80, And(And(e0, e_not(m0)), e_not(s)));
        cls(0x100, And(And(e_not(e0), e_not(e1)), e_not(s)));
        cls(0x200, And(And(e1, m0), e_not(s)));
      }
      r[nr++] = ve(res);
      break;
    }
    double d   = as_d(a[0].c);
    unsigned t = 0;
    switch (std::fpclassify(d)) {
    case FP_NAN: t = 3; break;
    case FP_INFINITE: t = d < 0 ? 4 : 0x200; break;
    case FP_NORMAL: t = d < 0 ? 8 : 0x100; break;
    case FP_SUBNORMAL: t = d < 0 ? 0x10 : 0x80; break;
    case FP_ZERO: t = std::signbit(d) ? 0x20 : 0x40; break;
    }
    r[nr++] = vc((t & a[1].c) != 0);
    break;
  }
  default:
    path_incomplete("unsupported intrinsic " + F->getName().str());
  }
  finish_call(di, r, nr);
}

static void call_function(DInst *di, Function *F, Args &args)
{
  if (F->isIntrinsic()) {
    intrinsic(di, F, args);
    return;
  }
  std::string name = F->getName().str();
  auto it          = g_ext.find(name);
  if (it != g_ext.end()) {
    ExtCtx c{di, args};
    it->second(c);
    if (!c.moved)
      finish_call(di, c.r, c.nr);
    return;
  }
  if (F->isDeclaration()) {
    path_incomplete("call to external function " + name);
  }
  if (F->isVarArg()) { // a model of it with fixed arguments (missing ones are 0)?
    Function *G = M->getFunction("vf_" + name);
    if (!G || G->isDeclaration() || G->isVarArg())
      path_incomplete("variadic function " + name);
    F = G;
    while (args.size() < F->arg_size())
      args.push_back(vc(0));
    args.resize(F->arg_size());
  }
  // byval arguments
  auto &CB = cast<CallBase>(*di->I);
  std::vector<u64> extra;
  size_t k = 0;
  for (unsigned i = 0; i < CB.arg_size(); i++) {
    if (CB.isByValArgument(i)) {
      u64 n = DL->getTypeAllocSize(CB.getParamByValType(i)).getFixedValue();
      u64 d = new_obj(n, 16, KStack);
      extra.push_back(d);
      mem_copy(d, concretize(args[k], 64, "byval"), n);
      args[k] = vc(d);
    }
    k += leaves(CB.getArgOperand(i)->getType())->size();
  }
  push_call(di, F, args);
  if (!extra.empty()) {
    Frame &f  = S->top();
    f.allocas = extra;
  }
}

static void exec_call(DInst *di)
{
  auto &CB = cast<CallBase>(*di->I);
  Frame &f = S->top();
  Args args;
  for (unsigned i = 0; i < CB.arg_size(); i++) {
    auto &o = di->ops[i];
    for (int j = 0; j < o.n; j++)
      args.push_back(getv(f, o, j));
  }
  Function *F = di->callee;
  if (!F) {
    if (CB.isInlineAsm()) {
      // only empty asm barriers are tolerated
      auto *IA = cast<InlineAsm>(CB.getCalledOperand());
      if (IA->getAsmString().empty()) {
        finish_call(di, nullptr, 0);
        return;
      }
      path_incomplete("inline assembly");
    }
    Val t = getv(f, di->ops.back());
    u64 a = concretize(t, 64, "function pointer");
    auto it = g_faddr.find(a);
    if (it == g_faddr.end())
      path_error("memory", "call through an invalid function pointer " + desc(a));
    F = it->second;
  }
  call_function(di, F, args);
}

// ------------------------------------------------------------------------------------------------ instruction semantics
static Val bin(unsigned opc, Val a, Val b, unsigned w)
{
  Op op;
  switch (opc) {
  case Instruction::Add: op = OAdd; break;
  case Instruction::Sub: op = OSub; break;
  case Instruction::Mul: op = OMul; break;
  case Instruction::UDiv: op = OUDiv; break;
  case Instruction::SDiv: op = OSDiv; break;
  case Instruction::URem: op = OURem; break;
  case Instruction::SRem: op = OSRem; break;
  case Instruction::And: op = OAnd; break;
  case Instruction::Or: op = OOr; break;
  case Instruction::Xor: op = OXor; break;
  case Instruction::Shl: op = OShl; break;
  case Instruction::LShr: op = OLShr; break;
  case Instruction::AShr: op = OAShr; break;
  default: die("bin op");
  }
  if (op == OUDiv || op == OSDiv || op == OURem || op == OSRem) {
    Expr *z = e_eq(ex(b, w), e_const(w, 0));
    if (z->is_const() ? z->c != 0 : eval_model(*S, z) != 0)
      path_error("ub", "division by zero");
    if (!z->is_const()) {
      Model m;
      if (query(*S, z, m) == SAT) {
        State *n = fork_state(*S);
        n->model = m;
        add_pc(*n, z);
        g_work.push_back(n);
        add_pc(*S, e_not(z));
      }
    }
  }
  if (conc(a) && conc(b) && w <= 64) {
    u64 M = m64(w);
    switch (op) {
    case OAdd: return vc((a.c + b.c) & M);
    case OSub: return vc((a.c - b.c) & M);
    case OMul: return vc((a.c * b.c) & M);
    case OAnd: return vc(a.c & b.c);
    case OOr: return vc(a.c | b.c);
    case OXor: return vc(a.c ^ b.c);
    case OShl: return vc(b.c >= w ? 0 : (a.c << b.c) & M);
    case OLShr: return vc(b.c >= w ? 0 : a.c >> b.c);
    default: return vc((u64)fold_bin(op, a.c, b.c, w));
    }
  }
  return ve(e_bin(op, ex(a, w), ex(b, w)));
}
static Val icmp(int pred, Val a, Val b, unsigned w)
{
  if (conc(a) && conc(b)) {
    bool r;
    switch (pred) {
    case CmpInst::ICMP_EQ: r = a.c == b.c; break;
    case CmpInst::ICMP_NE: r = a.c != b.c; break;
    case CmpInst::ICMP_ULT: r = a.c < b.c; break;
    case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
    case CmpInst::ICMP_UGT: r = a.c > b.c; break;
    case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
    case CmpInst::ICMP_SLT: r = sx(a.c, w) < sx(b.c, w); break;
    case CmpInst::ICMP_SLE: r = sx(a.c, w) <= sx(b.c, w); break;
    case CmpInst::ICMP_SGT: r = sx(a.c, w) > sx(b.c, w); break;
    default: r = sx(a.c, w) >= sx(b.c, w); break;
    }
    return vc(r);
  }
  Expr *x = ex(a, w), *y = ex(b, w), *r;
  switch (pred) {
  case CmpInst::ICMP_EQ: r = e_eq(x, y); break;
  case CmpInst::ICMP_NE: r = e_not(e_eq(x, y)); break;
  case CmpInst::ICMP_ULT: r = e_bin(OUlt, x, y); break;
  case CmpInst::ICMP_ULE: r = e_bin(OUle, x, y); break;
  case CmpInst::ICMP_UGT: r = e_bin(OUlt, y, x); break;
  case CmpInst::ICMP_UGE: r = e_bin(OUle, y, x); break;
  case CmpInst::ICMP_SLT: r = e_bin(OSlt, x, y); break;
  case CmpInst::ICMP_SLE: r = e_bin(OSle, x, y); break;
  case CmpInst::ICMP_SGT: r = e_bin(OSlt, y, x); break;
  default: r = e_bin(OSle, y, x); break;
  }
  return ve(r);
}

static void finish_path(bool normal)
{
  if (normal) {
    st.paths++;
    // reservoir sampling of complete paths for native validation
    static u64 seen = 0;
    seen++;
    u64 slot = seen <= g_samples ? seen - 1 : rnd() % seen;
    if (slot < g_samples)
      write_case(g_outdir + "/sample" + std::to_string(g_splitk) + "_" + std::to_string(slot) + ".txt", *S, S->model, true);
  }
  throw PathEnd{};
}

static void step()
{
  Frame &f  = S->top();
  DInst *di = &f.f->blocks[f.bb].code[f.ip];
  S->insts++;
  st.insts++;
  if (S->insts > g_max_insts)
    path_error("limit", "path exceeds the instruction bound (possible non-termination)");
  switch (di->opc) {
  case Instruction::Add:
  case Instruction::Sub:
  case Instruction::Mul:
  case Instruction::UDiv:
  case Instruction::SDiv:
  case Instruction::URem:
  case Instruction::SRem:
  case Instruction::And:
  case Instruction::Or:
  case Instruction::Xor:
  case Instruction::Shl:
  case Instruction::LShr:
  case Instruction::AShr:
    for (int i = 0; i < di->nd; i++) {
      Val r = bin(di->opc, getv(f, di->ops[0], i), getv(f, di->ops[1], i), di->w);
      f.regs[di->dst + i] = r;
    }
    f.ip++;
    break;
  case Instruction::ICmp:
    for (int i = 0; i < di->nd; i++)
      f.regs[di->dst + i] = icmp(di->pred, getv(f, di->ops[0], i), getv(f, di->ops[1], i), di->w2);
    f.ip++;
    break;
  case Instruction::Select: {
    int nc = di->ops[0].n;
    if (nc == 1) {
      Val c = getv(f, di->ops[0]);
      bool pick = true, known = conc(c);
      if (known)
        pick = c.c & 1;
      else if (di->I->getType()->isPointerTy() || di->nd > 1) {
        // fork on pointer selects
        Val x = getv(f, di->ops[1]), y = getv(f, di->ops[2]);
        if (di->nd == 1 && conc(x) && conc(y) && x.c == y.c) {
          known = true;
        } else {
          pick  = decide(c.e, nullptr); // the forked state re-executes the select with its constraint; see below
          known = true;
        }
      }
      if (known) {
        for (int i = 0; i < di->nd; i++)
          f.regs[di->dst + i] = getv(f, di->ops[pick ? 1 : 2], i);
      } else {
        Val x = getv(f, di->ops[1]), y = getv(f, di->ops[2]);
        f.regs[di->dst] = ve(e_ite(c.e, ex(x, di->w), ex(y, di->w)));
      }
    } else {
      for (int i = 0; i < di->nd; i++) {
        Val c = getv(f, di->ops[0], i), x = getv(f, di->ops[1], i), y = getv(f, di->ops[2], i);
        f.regs[di->dst + i] = conc(c) ? (c.c & 1 ? x : y) : ve(e_ite(c.e, ex(x, di->w), ex(y, di->w)));
      }
    }
    f.ip++;
    break;
  }
  case Instruction::Br: {
    if (di->ops.empty()) {
      goto_bb(f, di->succ[0]);
      break;
    }
    Val c = getv(f, di->ops[0]);
    bool t;
    if (conc(c))
      t = c.c & 1;
    else
      t = decide(c.e, [](State *) {});
    // a forked state re-executes the branch; its condition is then decided by its path constraint
    goto_bb(S->top(), di->succ[t ? 0 : 1]);
    break;
  }
  case Instruction::Switch: {
    Val c = getv(f, di->ops[0]);
    if (conc(c)) {
      int t = di->succ[0];
      for (size_t i = 1; i < di->ops.size(); i++)
        if (di->ops[i].cv.c == c.c) {
          t = di->succ[i];
          break;
        }
      goto_bb(f, t);
      break;
    }
    // the model's target for this state, fork the others
    u64 v   = eval_model(*S, c.e);
    int tgt = di->succ[0];
    for (size_t i = 1; i < di->ops.size(); i++)
      if (di->ops[i].cv.c == v)
        tgt = di->succ[i];
    Expr *cond = e_false(), *any = e_false();
    for (size_t i = 1; i < di->ops.size(); i++) {
      Expr *q = e_eq(c.e, e_const(di->w2, di->ops[i].cv.c));
      any     = e_bin(OOr, any, q);
      if (di->succ[i] == tgt)
        cond = e_bin(OOr, cond, q);
    }
    if (di->succ[0] == tgt)
      cond = e_bin(OOr, cond, e_not(any));
    decide(cond, [](State *) {}); // true in the current model; the other state re-executes the switch
    goto_bb(S->top(), tgt);
    break;
  }
  case Instruction::Ret: {
    Val res[16];
    std::vector<Val> big;
    int n = 0;
    if (!di->ops.empty()) {
      n = di->ops[0].n;
      if (n > 16)
        path_incomplete("huge return value");
      for (int i = 0; i < n; i++)
        res[i] = getv(f, di->ops[0], i);
    }
    DInst *call = f.call;
    pop_frame();
    if (S->frames.empty())
      finish_path(true);
    finish_call(call, res, n);
    break;
  }
  case Instruction::Load: {
    Val a = getv(f, di->ops[0]);
    for (int i = 0; i < di->nd; i++) {
      auto &l = (*di->leaves)[i];
      Val la  = l.off ? bin(Instruction::Add, a, vc(l.off), 64) : a;
      Val v   = mem_load(la, l.w, (l.w + 7) / 8, di->pred);
      S->top().regs[di->dst + i] = v;
    }
    S->top().ip++;
    break;
  }
  case Instruction::Store: {
    Val a = getv(f, di->ops[1]);
    for (size_t i = 0; i < di->leaves->size(); i++) {
      auto &l = (*di->leaves)[i];
      Val la  = l.off ? bin(Instruction::Add, a, vc(l.off), 64) : a;
      mem_store(la, l.w, (l.w + 7) / 8, getv(S->top(), di->ops[0], i));
    }
    S->top().ip++;
    break;
  }
  case Instruction::GetElementPtr: {
    Val p = getv(f, di->ops[0]);
    if (di->off)
      p = bin(Instruction::Add, p, vc((u64)di->off), 64);
    for (size_t k = 0; k < di->scaled.size(); k++) {
      auto &s    = di->scaled[k];
      unsigned w = di->succ[k];
      Val i      = getv(f, di->ops[s.first]);
      if (w < 64)
        i = conc(i) ? vc((u64)sx(i.c, w)) : ve(e_sext(i.e, 64));
      if (s.second != 1)
        i = bin(Instruction::Mul, i, vc((u64)s.second), 64);
      p = bin(Instruction::Add, p, i, 64);
    }
    f.regs[di->dst] = p;
    f.ip++;
    break;
  }
  case Instruction::Alloca: {
    u64 n = concretize(getv(f, di->ops[0]), scalar_w(di->I->getOperand(0)->getType()), "alloca size");
    u64 a = new_obj(n * di->off, std::max<u64>(8, cast<AllocaInst>(di->I)->getAlign().value()), KStack);
    Frame &g = S->top();
    g.allocas.push_back(a);
    g.regs[di->dst] = vc(a);
    g.ip++;
    break;
  }
  case Instruction::Trunc:
  case Instruction::ZExt:
  case Instruction::SExt:
  case Instruction::PtrToInt:
  case Instruction::IntToPtr:
    for (int i = 0; i < di->nd; i++) {
      Val a = getv(f, di->ops[0], i), r;
      if (conc(a) && di->w <= 64) {
        r = di->opc == Instruction::SExt ? vc((u64)sx(a.c, di->w2) & m64(di->w)) : vc(a.c & m64(di->w));
      } else {
        Expr *e = ex(a, di->w2);
        if (di->w < di->w2)
          r = ve(e_extract(e, 0, di->w));
        else
          r = ve(di->opc == Instruction::SExt ? e_sext(e, di->w) : e_zext(e, di->w));
      }
      f.regs[di->dst + i] = r;
    }
    f.ip++;
    break;
  case Instruction::BitCast: {
    auto *src = leaves(di->I->getOperand(0)->getType()), *dst = leaves(di->I->getType());
    if (src->size() == dst->size()) {
      for (int i = 0; i < di->nd; i++)
        f.regs[di->dst + i] = getv(f, di->ops[0], i);
    } else {
      Expr *all = nullptr;
      for (size_t i = src->size(); i-- > 0;) {
        Expr *e = ex(getv(f, di->ops[0], i), (*src)[i].w);
        all     = all ? e_concat(all, e) : e;
      }
      unsigned o = 0;
      for (size_t i = 0; i < dst->size(); i++) {
        f.regs[di->dst + i] = ve(e_extract(all, o, (*dst)[i].w));
        o += (*dst)[i].w;
      }
    }
    f.ip++;
    break;
  }
  case Instruction::Freeze:
    for (int i = 0; i < di->nd; i++)
      f.regs[di->dst + i] = getv(f, di->ops[0], i);
    f.ip++;
    break;
  case Instruction::ExtractValue: {
    auto *EV = cast<ExtractValueInst>(di->I);
    Type *T  = EV->getAggregateOperand()->getType();
    int off  = 0;
    for (unsigned ix : EV->indices()) {
      for (unsigned j = 0; j < ix; j++)
        off += leaves(isa<StructType>(T) ? cast<StructType>(T)->getElementType(j) : cast<ArrayType>(T)->getElementType())->size();
      T = isa<StructType>(T) ? cast<StructType>(T)->getElementType(ix) : cast<ArrayType>(T)->getElementType();
    }
    for (int i = 0; i < di->nd; i++)
      f.regs[di->dst + i] = getv(f, di->ops[0], off + i);
    f.ip++;
    break;
  }
  case Instruction::InsertValue: {
    auto *IV = cast<InsertValueInst>(di->I);
    Type *T  = IV->getAggregateOperand()->getType();
    int off  = 0;
    for (unsigned ix : IV->indices()) {
      for (unsigned j = 0; j < ix; j++)
        off += leaves(isa<StructType>(T) ? cast<StructType>(T)->getElementType(j) : cast<ArrayType>(T)->getElementType())->size();
      T = isa<StructType>(T) ? cast<StructType>(T)->getElementType(ix) : cast<ArrayType>(T)->getElementType();
    }
    std::vector<Val> t;
    for (int i = 0; i < di->nd; i++)
      t.push_back(getv(f, di->ops[0], i));
    for (int i = 0; i < di->ops[1].n; i++)
      t[off + i] = getv(f, di->ops[1], i);
    for (int i = 0; i < di->nd; i++)
      f.regs[di->dst + i] = t[i];
    f.ip++;
    break;
  }
  case Instruction::ExtractElement: {
    u64 ix = concretize(getv(f, di->ops[1]), 64, "vector index");
    Frame &g = S->top();
    g.regs[di->dst] = getv(g, di->ops[0], (int)ix);
    g.ip++;
    break;
  }
  case Instruction::InsertElement: {
    u64 ix = concretize(getv(f, di->ops[2]), 64, "vector index");
    Frame &g = S->top();
    std::vector<Val> t;
    for (int i = 0; i < di->nd; i++)
      t.push_back(getv(g, di->ops[0], i));
    t[ix] = getv(g, di->ops[1]);
    for (int i = 0; i < di->nd; i++)
      g.regs[di->dst + i] = t[i];
    g.ip++;
    break;
  }
  case Instruction::ShuffleVector: {
    auto *SV = cast<ShuffleVectorInst>(di->I);
    int n    = di->ops[0].n;
    std::vector<Val> t;
    for (int mk : SV->getShuffleMask())
      t.push_back(mk < 0 ? vc(0) : mk < n ? getv(f, di->ops[0], mk) : getv(f, di->ops[1], mk - n));
    for (int i = 0; i < di->nd; i++)
      f.regs[di->dst + i] = t[i];
    f.ip++;
    break;
  }
  case Instruction::Call:
  case Instruction::Invoke:
    exec_call(di);
    break;
  case Instruction::Unreachable:
    path_error("ub", "unreachable code executed");
  case Instruction::Resume:
    S->exc = getv(f, di->ops[0], 0).c;
    if (S->exc_type.count(S->exc))
      S->exc_ti = S->exc_type[S->exc];
    {
      // continue unwinding from the caller
      DInst *call = f.call;
      (void)call;
      // do_unwind looks at the current instruction of the top frame (resume is not an invoke), so it proceeds to the caller
      do_unwind();
    }
    break;
  case Instruction::AtomicRMW: {
    auto *A = cast<AtomicRMWInst>(di->I);
    unsigned w = di->w;
    Val p = getv(f, di->ops[0]), v = getv(f, di->ops[1]);
    Val old = mem_load(p, w, (w + 7) / 8, false), nv;
    switch (A->getOperation()) {
    case AtomicRMWInst::Add: nv = bin(Instruction::Add, old, v, w); break;
    case AtomicRMWInst::Sub: nv = bin(Instruction::Sub, old, v, w); break;
    case AtomicRMWInst::Xchg: nv = v; break;
    case AtomicRMWInst::Or: nv = bin(Instruction::Or, old, v, w); break;
    case AtomicRMWInst::And: nv = bin(Instruction::And, old, v, w); break;
    default: path_incomplete("atomicrmw");
    }
    mem_store(p, w, (w + 7) / 8, nv);
    Frame &g = S->top();
    g.regs[di->dst] = old;
    g.ip++;
    break;
  }
  case Instruction::AtomicCmpXchg: {
    unsigned w = scalar_w(di->I->getOperand(1)->getType());
    Val p = getv(f, di->ops[0]), cmp = getv(f, di->ops[1]), nv = getv(f, di->ops[2]);
    Val old = mem_load(p, w, (w + 7) / 8, false);
    Val eq  = icmp(CmpInst::ICMP_EQ, old, cmp, w);
    Val wv  = conc(eq) ? (eq.c ? nv : old) : ve(e_ite(eq.e, ex(nv, w), ex(old, w)));
    mem_store(p, w, (w + 7) / 8, wv);
    Frame &g = S->top();
    g.regs[di->dst]     = old;
    g.regs[di->dst + 1] = eq;
    g.ip++;
    break;
  }
  case Instruction::Fence:
    f.ip++;
    break;
  case Instruction::FNeg: {
    Val a = getv(f, di->ops[0]);
    if (conc(a))
      f.regs[di->dst] = vc(di->w == 64 ? a.c ^ (1ull << 63) : a.c ^ 0x80000000u);
    else
      f.regs[di->dst] = ve(di->w == 64 ? e_fneg(a.e) : e_bin(OXor, a.e, e_const(di->w, (u128)1 << (di->w - 1))));
    f.ip++;
    break;
  }
  case Instruction::FAdd:
  case Instruction::FSub:
  case Instruction::FMul:
  case Instruction::FDiv: {
    Val a = getv(f, di->ops[0]), b = getv(f, di->ops[1]);
    if (!conc(a) || !conc(b)) {
      if (di->w != 64)
        path_incomplete("symbolic single precision floating point");
      Op o = di->opc == Instruction::FAdd ? OFAdd : di->opc == Instruction::FSub ? OFSub : di->opc == Instruction::FMul ? OFMul : OFDiv;
      f.regs[di->dst] = ve(e_fbin(o, ex(a, 64), ex(b, 64)));
      f.ip++;
      break;
    }
    if (di->w == 64) {
      double x = as_d(a.c), y = as_d(b.c);
      double r = di->opc == Instruction::FAdd ? x + y : di->opc == Instruction::FSub ? x - y : di->opc == Instruction::FMul ? x * y : x / y;
      f.regs[di->dst] = vc(d_as(r));
    } else {
      float x, y;
      uint32_t xa = a.c, yb = b.c;
      memcpy(&x, &xa, 4);
      memcpy(&y, &yb, 4);
      float r = di->opc == Instruction::FAdd ? x + y : di->opc == Instruction::FSub ? x - y : di->opc == Instruction::FMul ? x * y : x / y;
      memcpy(&xa, &r, 4);
      f.regs[di->dst] = vc(xa);
    }
    f.ip++;
    break;
  }
  case Instruction::FCmp: {
    Val a = getv(f, di->ops[0]), b = getv(f, di->ops[1]);
    if (!conc(a) || !conc(b)) {
      if (di->w2 != 64)
        path_incomplete("symbolic single precision floating point");
      Expr *x = ex(a, 64), *y = ex(b, 64), *r = e_false();
      int p = di->pred;
      if ((p & 7) == 3)
        r = e_fbin(OFLe, y, x);
      else if ((p & 7) == 5)
        r = e_fbin(OFLe, x, y);
      else if ((p & 7) == 7)
        r = e_bin(OAnd, e_fbin(OFEq, x, x), e_fbin(OFEq, y, y));
      else {
        if (p & 1)
          r = e_bin(OOr, r, e_fbin(OFEq, x, y));
        if (p & 2)
          r = e_bin(OOr, r, e_fbin(OFLt, y, x));
        if (p & 4)
          r = e_bin(OOr, r, e_fbin(OFLt, x, y));
      }
      if (p & 8)
        r = e_bin(OOr, r, e_not(e_bin(OAnd, e_fbin(OFEq, x, x), e_fbin(OFEq, y, y))));
      f.regs[di->dst] = ve(r);
      f.ip++;
      break;
    }
    double x, y;
    if (di->w2 == 64) {
      x = as_d(a.c);
      y = as_d(b.c);
    } else {
      float xf, yf;
      uint32_t xa = a.c, yb = b.c;
      memcpy(&xf, &xa, 4);
      memcpy(&yf, &yb, 4);
      x = xf;
      y = yf;
    }
    bool un = std::isnan(x) || std::isnan(y), r = false;
    int p = di->pred;
    if (p == CmpInst::FCMP_FALSE)
      r = false;
    else if (p == CmpInst::FCMP_TRUE)
      r = true;
    else if (un)
      r = p & 8;
    else
      r = ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y);
    f.regs[di->dst] = vc(r);
    f.ip++;
    break;
  }
  case Instruction::FPToUI:
  case Instruction::FPToSI: {
    Val a = getv(f, di->ops[0]);
    if (di->w2 != 64)
      path_incomplete("single precision floating point conversion");
    if (!conc(a)) {
      f.regs[di->dst] = ve(e_fptoi(a.e, di->w, di->opc == Instruction::FPToSI));
      f.ip++;
      break;
    }
    double x = as_d(a.c);
    f.regs[di->dst] = vc((di->opc == Instruction::FPToUI ? (u64)x : (u64)(int64_t)x) & m64(di->w));
    f.ip++;
    break;
  }
  case Instruction::UIToFP:
  case Instruction::SIToFP: {
    Val a = getv(f, di->ops[0]);
    if (!conc(a)) {
      if (di->w != 64)
        path_incomplete("symbolic single precision floating point");
      f.regs[di->dst] = ve(e_tofp(a.e, di->opc == Instruction::SIToFP));
      f.ip++;
      break;
    }
    double x = di->opc == Instruction::UIToFP ? (double)a.c : (double)sx(a.c, di->w2);
    if (di->w == 64)
      f.regs[di->dst] = vc(d_as(x));
    else {
      float fx = di->opc == Instruction::UIToFP ? (float)a.c : (float)sx(a.c, di->w2);
      uint32_t u;
      memcpy(&u, &fx, 4);
      f.regs[di->dst] = vc(u);
    }
    f.ip++;
    break;
  }
  case Instruction::FPExt: {
    Val a = getv(f, di->ops[0]);
    if (!conc(a) || di->w != 64)
      path_incomplete("floating point extension");
    float fx;
    uint32_t u = a.c;
    memcpy(&fx, &u, 4);
    f.regs[di->dst] = vc(d_as(fx));
    f.ip++;
    break;
  }
  default: {
    path_incomplete(std::string("unsupported instruction ") + di->I->getOpcodeName());
  }
  }
}

// ------------------------------------------------------------------------------------------------ driver
static std::string jstr(std::string const &s)
{
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if ((unsigned char)c < 32)
      o += ' ';
    else
      o += c;
  }
  return o + "\"";
}

static void run_to_end(Function *F)
{
  // run a function without arguments to completion in the current state (used for static constructors; must not fork)
  push_call(nullptr, F, {});
  size_t depth = S->frames.size();
  while (S->frames.size() >= depth) {
    Frame &f  = S->top();
    DInst *di = &f.f->blocks[f.bb].code[f.ip];
    if (di->opc == Instruction::Ret && S->frames.size() == depth) {
      pop_frame();
      break;
    }
    step();
  }
}

int main(int argc, char **argv)
{
  std::string bc, entry = "harness", out;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx       = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--entry")
      entry = nx();
    else if (a == "--split") {
      std::string s = nx();
      sscanf(s.c_str(), "%d/%d", &g_splitk, &g_splitn);
    } else if (a == "--time")
      g_tlimit = atof(nx().c_str());
    else if (a == "--out")
      out = nx();
    else if (a == "--dir")
      g_outdir = nx();
    else if (a == "--samples")
      g_samples = atoi(nx().c_str());
    else if (a == "--max-viol")
      g_max_viol = atoi(nx().c_str());
    else if (a == "--max-insts")
      g_max_insts = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-enum")
      g_max_enum = atoi(nx().c_str());
    else if (a == "--z3-every")
      g_z3_every = atoi(nx().c_str());
    else if (a == "--seed")
      g_rng ^= strtoull(nx().c_str(), 0, 10) * 0x9E3779B97F4A7C15ull;
    else if (a == "-v")
      g_verbose = true;
    else
      bc = a;
  }
  struct rlimit rl{512ull << 20, 512ull << 20};
  getrlimit(RLIMIT_STACK, &rl);
  g_t0       = now();
  g_deadline = g_t0 + g_tlimit;
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(bc, err, ctx);
  if (!mod) {
    err.print("symex", errs());
    return 3;
  }
  M  = mod.get();
  DL = &M->getDataLayout();
  init_ext();
  S             = new State;
  S->heap_next  = HEAP_BASE + 16;
  S->stack_next = STACK_BASE + 16;
  init_globals();
  for (auto &kv : g_gaddr)
    if (auto *g = dyn_cast<GlobalVariable>(kv.first))
      g_addr_gv[kv.second] = const_cast<GlobalVariable *>(g);
  bool timeout = false;
  u64 pending = 0;
  try {
    // static constructors
    if (auto *GC = M->getNamedGlobal("llvm.global_ctors")) {
      std::vector<std::pair<u64, Function *>> cs;
      if (auto *CA = dyn_cast<ConstantArray>(GC->getInitializer()))
        for (auto &o : CA->operands()) {
          auto *CS = cast<ConstantStruct>(o);
          if (auto *F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts()))
            cs.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F});
        }
      std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (auto &c : cs)
        run_to_end(c.second);
    }
  } catch (PathEnd &) {
    fprintf(stderr, "symex: static initialisation failed\n");
    return 3;
  }
  Function *E = M->getFunction(entry);
  if (!E || E->isDeclaration()) {
    fprintf(stderr, "symex: no entry function %s\n", entry.c_str());
    return 3;
  }
  g_used.clear();
  for (auto &kv : g_dfuncs)
    for (auto &b : kv.second->blocks)
      b.seen = false;
  S->insts = 0;
  st.insts = 0;
  S->live  = 0;
  push_call(nullptr, E, {});
  g_work.push_back(S);
  double tinit = now() - g_t0;
  u64 tick     = 0;
  while (!g_work.empty()) {
    S = g_work.back();
    g_work.pop_back();
    try {
      while (true) {
        for (int i = 0; i < 512; i++)
          step();
        {
          if (now() - g_t0 > g_tlimit) {
            timeout = true;
            pending = g_work.size() + 1;
            break;
          }
        }
      }
    } catch (PathEnd &) {
    }
    delete S;
    S = nullptr;
    if (timeout)
      break;
    if ((++tick & 15) == 0 && now() - g_t0 > g_tlimit && !g_work.empty()) {
      timeout = true;
      pending = g_work.size();
      break;
    }
    if (g_violkeys.size() >= g_max_viol) {
      pending = g_work.size();
      if (pending)
        g_incomplete["stopped after the maximum number of violations"] += pending;
      break;
    }
  }
  if (timeout) {
    g_incomplete["time limit"] += pending;
  }
  struct rusage ru;
  getrusage(RUSAGE_SELF, &ru);
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(o, "{\"entry\":%s,\"split\":\"%d/%d\",\"paths\":%llu,\"killed\":%llu,\"errors\":%llu,\"incomplete\":%llu,\"forks\":%llu,\"branches\":%llu,"
             "\"instructions\":%llu,\"checks_symbolic\":%llu,\"checks_concrete\":%llu,\"enumerations\":%llu,\"memory_resolutions\":%llu,"
             "\"max_constraints\":%llu,",
          jstr(entry).c_str(), g_splitk, g_splitn, (unsigned long long)st.paths, (unsigned long long)st.killed, (unsigned long long)st.errors,
          (unsigned long long)(st.incomplete + (timeout ? pending : 0)), (unsigned long long)st.forks, (unsigned long long)st.branches,
          (unsigned long long)st.insts, (unsigned long long)st.checks_sym, (unsigned long long)st.checks_conc, (unsigned long long)st.enums,
          (unsigned long long)st.memchecks, (unsigned long long)st.maxpc);
  fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"solver_s\":%.3f,\"z3_checks\":%llu,\"z3_disagree\":%llu,"
             "\"z3_unknown\":%llu,\"z3_fallback\":%llu,\"z3_s\":%.3f,\"exprs\":%llu,\"wall_s\":%.3f,\"init_s\":%.3f,\"maxrss_mb\":%ld,\"timeout\":%s,",
          (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown,
          (unsigned long long)g_ss.cache_hits, g_ss.time, (unsigned long long)g_ss.z3_checks, (unsigned long long)g_ss.z3_disagree,
          (unsigned long long)g_ss.z3_unknown, (unsigned long long)g_ss.z3_fallback, g_ss.z3_time, (unsigned long long)g_nexprs, now() - g_t0, tinit,
          ru.ru_maxrss / 1024, timeout ? "true" : "false");
  fprintf(o, "\"incomplete_reasons\":{");
  bool first = true;
  for (auto &kv : g_incomplete) {
    fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second);
    first = false;
  }
  fprintf(o, "},\"reach\":{");
  first = true;
  for (auto &kv : g_reach) {
    fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second);
    first = false;
  }
  fprintf(o, "},\"violations\":[");
  first = true;
  for (auto &v : g_viol) {
    fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"file\":%s}", first ? "" : ",", jstr(v.kind).c_str(), jstr(v.msg).c_str(),
            jstr(v.loc).c_str(), jstr(v.stack).c_str(), jstr(v.file).c_str());
    first = false;
  }
  fprintf(o, "],\"functions\":[");
  first = true;
  // library functions executed: every subprogram (also inlined ones) with an instruction in an executed block
  std::set<std::string> fnames;
  std::set<const DISubprogram *> seen_sp;
  for (auto *d : g_used)
    for (auto &b : d->blocks)
      if (b.seen)
        for (auto &i : b.code)
          for (const DILocation *dl = i.I->getDebugLoc().get(); dl; dl = dl->getInlinedAt()) {
            auto *sp = dl->getScope()->getSubprogram();
            if (!sp || !seen_sp.insert(sp).second)
              continue;
            std::string fn = sp->getFilename().str();
            if (fn[0] != '/')
              fn = sp->getDirectory().str() + "/" + fn;
            if (fn.find("/repo/code/") == std::string::npos)
              continue;
            std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : demangle1(sp->getLinkageName().str());
            fnames.insert(nm);
          }
  for (auto &n : fnames) {
    fprintf(o, "%s%s", first ? "" : ",", jstr(n).c_str());
    first = false;
  }
  fprintf(o, "]}\n");
  if (o != stdout)
    fclose(o);
  if (const char *dir = getenv("VF_LINES")) { // development: the source lines of executed blocks
    std::set<std::string> lines;
    for (auto *d : g_used)
      for (auto &b : d->blocks)
        if (b.seen)
          for (auto &i : b.code)
            for (const DILocation *dl = i.I->getDebugLoc().get(); dl; dl = dl->getInlinedAt())
              lines.insert(dl->getFilename().str() + ":" + std::to_string(dl->getLine()));
    if (FILE *f = fopen((std::string(dir) + "/" + std::to_string(getpid())).c_str(), "w")) {
      for (auto &l : lines)
        fprintf(f, "%s\n", l.c_str());
      fclose(f);
    }
  }
  fflush(nullptr);
  _exit(0);
}
