// Scoped value changes, overload sets, type lists.
//@ entry h_let_value props=U01 : any integer values, nesting of 1..4 (thorough 6) guards on any of 2 variables, left normally, by return or by an exception at any depth, with arbitrary changes in between
//@ entry h_let_object props=U01 : strings of 0..20 arbitrary characters, owning pointers, and objects that count their instances, given as copies or as temporaries, left normally or by an exception
//@ entry h_vary props=U01 : every alternative and value of a variant of 4 types, selection by type lists and by case tags
#include "vf.h"
#include "swoc/swoc_meta.h"
#include "swoc/TextView.h"
#include <memory>
#include <string>
#include <tuple>
#include <variant>
namespace meta = swoc::meta;
using meta::let;
using namespace swoc::literals;

static bool bytes_eq(char const *p, char const *q, size_t n)
{
  bool r = true;
  for (size_t i = 0; i < n; ++i)
    r = all(r, p[i] == q[i]);
  return r;
}
static unsigned a, b;
struct Left {
  unsigned depth;
};
// Enter guards up to a depth, change the values, leave by return or exception. Every guard must have put back the value on return.
static unsigned scopes(unsigned depth, unsigned how, unsigned stop)
{
  if (depth == 0) {
    if (stop == 0 && how == 1)
      throw Left{0};
    return 1;
  }
  unsigned &var      = sym_pick(2, "variable") ? b : a;
  unsigned &other    = &var == &a ? b : a;
  unsigned old       = var;
  unsigned old_other = other;
  unsigned value     = sym_u32("value");
  unsigned r         = 0;
  bool thrown        = false;
  try {
    let guard(var, value);
    CHECKM(all(var == value, other == old_other), "the new value while the guard lives, nothing else changes");
    if (stop == depth) {
      if (how == 1)
        throw Left{depth};
      return depth;
    }
    r = scopes(depth - 1, how, stop);
    CHECKM(all(var == value, other == old_other), "inner scopes are undone");
    if (sym_pick(2, "change"))
      var = sym_u32("changed");
  } catch (Left const &l) {
    CHECK(l.depth == stop);
    thrown = true;
  }
  CHECKM(all(var == old, other == old_other), "the old value after the scope");
  if (thrown)
    throw Left{stop};
  return r;
}
HARNESS(h_let_value)
{
  a               = sym_u32("a");
  b               = sym_u32("b");
  unsigned was_a  = a, was_b = b;
  unsigned depth  = 1 + sym_pick(BOUND(4, 6), "depth");
  unsigned how    = sym_pick(2, "how");
  unsigned stop   = sym_pick(depth + 1, "stop");
  bool caught     = false;
  try {
    scopes(depth, how, stop);
  } catch (Left const &) {
    caught = true;
  }
  CHECK(caught == (how == 1));
  CHECKM(all(a == was_a, b == was_b), "all values are back");
  // constant and widened values
  {
    let guard(a, 7u);
    CHECK(a == 7);
  }
  CHECK(a == was_a);
  unsigned long long wide = sym_u64("wide");
  unsigned long long old  = wide;
  {
    let<unsigned long long> guard(wide, 5);
    CHECK(wide == 5);
  }
  CHECK(wide == old);
  REACH("done");
}

static int instances;
struct Counted {
  int v;
  explicit Counted(int x) : v(x) { ++instances; }
  Counted(Counted const &that) : v(that.v) { ++instances; }
  Counted(Counted &&that) : v(that.v)
  {
    that.v = -1;
    ++instances;
  }
  Counted &operator=(Counted const &that) = default;
  Counted &operator=(Counted &&that)
  {
    v      = that.v;
    that.v = -1;
    return *this;
  }
  ~Counted() { --instances; }
};
HARNESS(h_let_object)
{
  bool fails  = sym_pick(2, "fails");
  bool temp   = sym_pick(2, "temporary");
  size_t live = sym_heap_live();
  switch (sym_pick(3, "type")) {
  case 0: {
    static const size_t sizes[] = {0, 1, 15, 16, 20};
    size_t n = sizes[sym_pick(5, "n")], m = sizes[sym_pick(5, "m")];
    char was[20], now[20];
    sym_bytes(was, n, "was");
    sym_bytes(now, m, "now");
    {
      std::string var(was, n);
      std::string value(now, m);
      try {
        std::unique_ptr<let<std::string>> guard;
        if (temp)
          guard.reset(new let<std::string>(var, std::string(now, m)));
        else
          guard.reset(new let<std::string>(var, value));
        CHECKM(all(var.size() == m, bytes_eq(var.data(), now, m)), "the new text");
        if (!temp)
          CHECKM(all(value.size() == m, bytes_eq(value.data(), now, m)), "the given object is not changed");
        var += "more";
        if (fails)
          throw 1;
      } catch (int) {
        CHECK(fails);
      }
      CHECKM(all(var.size() == n, bytes_eq(var.data(), was, n)), "the old text");
    }
    break;
  }
  case 1: {
    unsigned x = sym_u32("x"), y = sym_u32("y");
    auto var        = std::make_unique<unsigned>(x);
    unsigned *where = var.get();
    try {
      let<std::unique_ptr<unsigned>> guard(var, temp ? std::make_unique<unsigned>(y) : nullptr);
      CHECK(bool(var) == temp);
      CHECK(var.get() != where);
      if (temp)
        CHECK(*var == y);
      CHECKM(*where == x, "the old object lives");
      if (fails)
        throw 1;
    } catch (int) {
      CHECK(fails);
    }
    CHECKM(all(var.get() == where, *where == x), "the very object is back");
    break;
  }
  case 2: {
    int x = int(sym_u32("x")), y = int(sym_u32("y"));
    ASSUME(all(x >= 0, y >= 0));
    {
      Counted var(x);
      Counted value(y);
      try {
        if (temp) {
          let guard(var, Counted(y));
          CHECK(var.v == y);
          if (fails)
            throw 1;
        } else {
          Counted const &ref = value;
          let guard(var, ref);
          CHECK(var.v == y);
          CHECKM(value.v == y, "the given object is not changed");
          if (fails)
            throw 1;
        }
      } catch (int) {
        CHECK(fails);
      }
      CHECK(var.v == x);
      CHECKM(instances == 2, "nothing is left over");
    }
    CHECK(instances == 0);
    break;
  }
  }
  CHECKM(sym_heap_live() == live, "all memory is released");
  REACH("done");
}

template <typename T> auto pick(T const &t, meta::CaseTag<0>) -> int { return 1 + int(sizeof(t)); }
template <typename T> auto pick(T const &t, meta::CaseTag<1>) -> decltype(t.size(), 0) { return 100 + int(t.size()); }
template <typename T> auto pick(T const &t, meta::CaseTag<2>) -> decltype(t.special(), 0) { return 1000 + t.special(); }
struct Special {
  int s;
  size_t size() const { return 1; }
  int special() const { return s; }
};
template <typename... T> struct Size {
  static constexpr size_t value = sizeof...(T);
};
HARNESS(h_vary)
{
  unsigned v = sym_u32("v") & 0xffff;
  std::variant<int, unsigned long, bool, std::string> x;
  unsigned k = sym_pick(4, "alternative");
  switch (k) {
  case 0: x = int(v); break;
  case 1: x = (unsigned long)(v); break;
  case 2: x = bool(v & 1); break;
  case 3: x = std::string(v & 7, 'x'); break;
  }
  unsigned calls = 0;
  unsigned r     = std::visit(meta::vary{[&](int n) {
                                           ++calls;
                                           return 0x10000 + unsigned(n);
                                         },
                                         [&](unsigned long n) {
                                           ++calls;
                                           return 0x20000 + unsigned(n);
                                         },
                                         [&](bool n) {
                                           ++calls;
                                           return 0x30000 + unsigned(n);
                                         },
                                         [&](std::string const &s) {
                                           ++calls;
                                           return 0x40000 + unsigned(s.size());
                                         }},
                              x);
  CHECK(calls == 1);
  CHECK(r == 0x10000 * (k + 1) + (k < 2 ? v : k == 2 ? v & 1 : v & 7));
  using L = meta::type_list<int, bool, Special>;
  CHECK(L::size == 3);
  CHECK(all(L::contains<int>, L::contains<bool>, L::contains<Special>, !L::contains<unsigned>, !L::contains<int const>, !L::contains<int &>));
  CHECK(L::apply<Size>::value == 3);
  CHECK((std::is_same_v<L::apply<std::tuple>, std::tuple<int, bool, Special>>));
  CHECK(all(!meta::type_list<>::contains<int>, meta::type_list<>::size == 0));
  CHECK((all(meta::is_any_of_v<int, bool, int>, meta::is_any_of_v<int, int, bool>, !meta::is_any_of_v<int>, !meta::is_any_of_v<int, bool, long>)));
  CHECK((all(meta::is_homogenous<int>::value, meta::is_homogenous<int, int, int>::value, !meta::is_homogenous<int, int, bool>::value, !meta::is_homogenous<int, bool, int>::value)));
  CHECK(pick(Special{int(v)}, meta::CaseArg) == int(1000 + v));
  CHECK(pick(std::string(v & 7, 'x'), meta::CaseArg) == int(100 + (v & 7)));
  CHECK(pick(short(v), meta::CaseArg) == 3);
  // literals and copies of views
  auto tv = "ab\0c"_tv;
  auto sv = "ab\0c"_sv;
  static_assert(std::is_same_v<decltype(tv), swoc::TextView> && std::is_same_v<decltype(sv), std::string_view>);
  CHECK(all(tv.size() == 4, sv.size() == 4, tv[3] == 'c', sv[3] == 'c', ""_tv.empty(), ""_sv.empty()));
  unsigned n = unsigned(sym_concrete(v & 3));
  Block src(n, "src"), dst(n);
  CHECK(memcpy(static_cast<void *>(dst.p), std::string_view(src.p, n)) == dst.p);
  CHECK(bytes_eq(dst.p, src.p, n));
  REACH("done");
}
