// Lexicon: names <-> values, against the list of definitions.
//@ entry h_lex_define props=C03 shards=64 time=600 : two or three definitions of one or two names: either arbitrary names of 0..1 (thorough 0..2) bytes (quick: at most two of the three arbitrary) with equal / different values and lookup of an arbitrary name, or arbitrary 8 bit values with fixed names and lookup of an arbitrary value, with and without defaults; iteration over values and names
//@ entry h_lex_dup props=C03 shards=4 : a duplicate name (up to case) of 1 (thorough 2) bytes is refused, another is accepted, and nothing defined before changes
//@ entry h_lex_many props=C03 shards=4 : 40 definitions with secondary names (tables expand), then lookup of an arbitrary name of 2 bytes and an arbitrary 16 bit value, also after a move
//@ entry h_lex_default props=C03 shards=1 : every kind and order of default (value, name, handlers, constructor or set later) with arbitrary values and names
//@ entry h_lex_iter props=C03 shards=1 : iteration forward and backward, constructors with pairs and with name lists, formatting
#include "vf.h"
#include "swoc/TextView.h"
#include "swoc/Lexicon.h"
#include "swoc/BufferWriter.h"
#include <stdexcept>
using swoc::Lexicon;
using swoc::TextView;
enum class Val : uint8_t {};
using Lex = Lexicon<Val>;
static uint8_t low(char c)
{
  uint8_t b = c;
  return b + (all(b >= 'A', b <= 'Z') ? 32 : 0);
}
static bool same_nocase(TextView a, TextView b)
{
  if (a.size() != b.size())
    return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); ++i)
    r = all(r, low(a.data()[i]) == low(b.data()[i]));
  return r;
}
static bool same(TextView a, TextView b)
{
  if (a.size() != b.size())
    return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); ++i)
    r = all(r, a.data()[i] == b.data()[i]);
  return r;
}
struct Def {
  TextView name;
  uint8_t value;
};
struct Ref {
  Def d[48];
  unsigned n = 0;
};
static void probe(Lex const &lex, Ref const &r, TextView name, uint8_t value, bool name_default, bool value_default)
{
  bool thrown = false;
  Val v{};
  try {
    v = lex[name];
  } catch (std::domain_error &) {
    thrown = true;
  }
  bool known = false, right = true;
  for (unsigned i = 0; i < r.n; ++i) {
    bool m = same_nocase(r.d[i].name, name);
    known = any(known, m);
    right = all(right, implies(m, uint8_t(v) == r.d[i].value));
  }
  if (thrown) {
    CHECKM(!known, "a defined name is found");
    CHECKM(!value_default, "no exception with a default");
  } else {
    CHECKM(right, "a name gives its value");
    if (value_default)
      CHECKM(implies(!known, uint8_t(v) == 77), "an unknown name gives the default");
    else
      CHECKM(known, "an unknown name throws");
  }
  thrown = false;
  TextView n;
  try {
    n = lex[Val(value)];
  } catch (std::domain_error &) {
    thrown = true;
  }
  bool defined = false, primary = true;
  for (unsigned i = 0; i < r.n; ++i) {
    bool m = r.d[i].value == value;
    primary = all(primary, implies(all(m, !defined), same(n, r.d[i].name)));
    defined = any(defined, m);
  }
  if (thrown) {
    CHECKM(!defined, "a defined value is found");
    CHECKM(!name_default, "no exception with a default");
  } else {
    CHECKM(primary, "a value gives its primary name");
    if (name_default)
      CHECKM(implies(!defined, same(n, "dflt")), "an unknown value gives the default");
    else
      CHECKM(defined, "an unknown value throws");
  }
}
static unsigned distinct(Ref const &r)
{
  unsigned c = 0;
  for (unsigned i = 0; i < r.n; ++i) {
    bool first = true;
    for (unsigned j = 0; j < i; ++j)
      first = all(first, r.d[j].value != r.d[i].value);
    c += first;
  }
  return c;
}
static void iterate(Lex const &lex, Ref const &r)
{
  unsigned c = distinct(r);
  CHECK(lex.count() == c);
  unsigned k = 0, sum = 0;
  bool ok = true;
  for (auto const &p : lex) { // each value once with its primary name
    bool hit = false, before = false;
    for (unsigned i = 0; i < r.n; ++i) {
      bool m = r.d[i].value == uint8_t(p._value);
      hit = any(hit, all(m, !before, same(p._name, r.d[i].name)));
      before = any(before, m);
    }
    ok = all(ok, hit);
    ++k;
    sum += unsigned(p._value);
    CHECK(k <= r.n);
  }
  CHECKM(ok, "iteration gives each value with its primary name");
  CHECKM(k == c, "iteration visits each value once");
  unsigned seen = 0, names = 0;
  for (auto const &p : lex.by_names()) {
    unsigned hit = 0;
    for (unsigned i = 0; i < r.n; ++i)
      hit += all(r.d[i].value == uint8_t(p._value), same(p._name, r.d[i].name));
    CHECKM(hit == 1, "iteration gives the defined names");
    ++names;
    CHECK(names <= r.n);
  }
  CHECK(names == r.n);
  (void)seen;
}
static TextView str(Block &b) { return {b.p, b.n}; }
HARNESS(h_lex_define)
{
  static const unsigned L = BOUND(2, 3); // lengths 0..L-1
  bool names_p = sym_split(2, "axis"); // arbitrary names with some values, or arbitrary values with some names
  unsigned la = names_p ? sym_split(L, "la") : 2, lb = names_p ? sym_split(L, "lb") : 1, lc = names_p ? sym_split(L, "lc") : 3;
  Block a{la}, b{lb}, c{lc};
  uint8_t v, w;
  if (names_p) {
    sym_bytes(a.p, la, "a");
    sym_bytes(b.p, lb, "b");
    sym_bytes(c.p, lc, "c");
    if (la) // spread the work
      ASSUME((a.p[0] & 1) == int(sym_split(2, "part")));
    v = 3;
    w = BOUND(lb ^ lc, sym_split(2, "w")) & 1 ? 3 : 200;
  } else {
    memcpy(a.p, "aB", 2);
    memcpy(b.p, "-", 1);
    memcpy(c.p, "c\0c", 3);
    v = sym_u8("v");
    w = sym_u8("w");
  }
  Lex lex;
  Ref r;
  bool nd = BOUND(la ^ lb ^ lc ^ 1, sym_split(2, "default")) & 1, vd = nd;
  if (nd)
    lex.set_default(TextView("dflt")).set_default(Val(77));
  bool thrown = false;
  unsigned kind = sym_split(2, "kind");
  auto def = [&](Block &x, uint8_t val) {
    r.d[r.n++] = {str(x), val};
  };
  try {
    if (kind == 0) {
      lex.define(Val(v), str(a), str(b));
      lex.define(Val(w), str(c));
    } else {
      lex.define(Val(v), {str(a)});
      lex.define(Lex::Pair{Val(w), str(b)});
      std::initializer_list<TextView> l{str(c)};
      lex.define(Lex::Definition{Val(v), l});
    }
  } catch (std::invalid_argument &) {
    thrown = true;
  }
  bool dup = any(same_nocase(str(a), str(b)), same_nocase(str(a), str(c)), same_nocase(str(b), str(c)));
  CHECKM(thrown == dup, "a duplicate name, and only that, is refused");
  if (thrown)
    return;
  def(a, v);
  def(b, kind == 0 ? v : w);
  def(c, kind == 0 ? w : v);
  // the strings are copied
  char keep[3][3];
  unsigned i = 0;
  for (Block *x : {&a, &b, &c}) {
    for (unsigned j = 0; j < x->n; ++j) {
      keep[i][j] = x->p[j];
      x->p[j] = '?';
    }
    r.d[i].name = TextView(keep[i], x->n);
    ++i;
  }
  if (!nd)
    iterate(lex, r);
  else
    CHECK(lex.count() == distinct(r));
  if (names_p) {
    Block p{sym_split(L, "lp"), "p"};
    probe(lex, r, str(p), 3, nd, vd);
  } else
    probe(lex, r, "Ab", sym_u8("pv"), nd, vd);
  REACH("done");
}
HARNESS(h_lex_dup)
{
  static const unsigned L = BOUND(1, 2);
  Lex lex;
  Block a{L, "a"}, b{sym_split(L + 1, "len"), "b"};
  uint8_t v = sym_u8("v"), w = sym_u8("w");
  lex.define(Val(v), str(a));
  bool thrown = false;
  try {
    lex.define(Val(w), str(b));
  } catch (std::invalid_argument &) {
    thrown = true;
  }
  bool dup = same_nocase(str(a), str(b));
  CHECKM(thrown == dup, "a duplicate name, and only that, is refused");
  CHECKM(uint8_t(lex[str(a)]) == v, "the first definition stays");
  CHECKM(same(lex[Val(v)], str(a)), "the first definition stays");
  if (!thrown) {
    CHECK(uint8_t(lex[str(b)]) == w);
    CHECK(implies(v != w, same(lex[Val(w)], str(b))));
  }
  Block up{a.n};
  for (unsigned i = 0; i < a.n; ++i)
    up[i] = all(uint8_t(a[i]) >= 'a', uint8_t(a[i]) <= 'z') ? a[i] - 32 : a[i];
  CHECKM(uint8_t(lex[str(up)]) == v, "lookup ignores case");
  REACH("done");
}
HARNESS(h_lex_many)
{
  using L16 = Lexicon<uint16_t>;
  L16 lex{L16::Default{uint16_t(999)}, L16::Default{TextView("none")}};
  char buf[40][2];
  for (unsigned i = 0; i < 40; ++i) {
    buf[i][0] = 'a' + i / 8;
    buf[i][1] = '0' + i % 8;
    char sec[2] = {char('k' + i / 8), char('0' + i % 8)};
    lex.define(uint16_t(i * 331), TextView(buf[i], 2), TextView(sec, 2));
  }
  L16 moved{std::move(lex)};
  CHECK(moved.count() == 40);
  if (sym_split(2, "what")) {
    Block p{2, "p"};
    uint16_t v = moved[str(p)];
    bool ok = true, known = false;
    uint8_t c0 = low(p[0]), c1 = low(p[1]);
    for (unsigned i = 0; i < 40; ++i) {
      bool m = all(any(c0 == 'a' + i / 8, c0 == 'k' + i / 8), c1 == '0' + i % 8);
      ok = all(ok, implies(m, v == i * 331));
      known = any(known, m);
    }
    CHECKM(ok, "every name gives its value");
    CHECKM(implies(!known, v == 999), "an unknown name gives the default");
  } else {
    uint16_t q = sym_u16("q");
    TextView n = moved[q];
    bool ok = true, known = false;
    for (unsigned i = 0; i < 40; ++i) {
      ok = all(ok, implies(q == i * 331, same(n, TextView(buf[i], 2))));
      known = any(known, q == i * 331);
    }
    CHECKM(ok, "every value gives its primary name");
    CHECKM(implies(!known, same(n, "none")), "an unknown value gives the default");
  }
  unsigned names = 0;
  for (auto const &p : moved.by_names()) {
    (void)p;
    ++names;
  }
  CHECK(names == 80);
  REACH("done");
}
HARNESS(h_lex_default)
{
  uint8_t dv = sym_u8("dv"), v = sym_u8("v");
  Block name{2, "name"};
  unsigned calls = 0;
  TextView asked;
  uint8_t asked_v = 0;
  Lex::UnknownNameHandler nh = [&](TextView n) -> Val {
    ++calls;
    asked = n;
    return Val(dv);
  };
  Lex::UnknownValueHandler vh = [&](Val x) -> TextView {
    ++calls;
    asked_v = uint8_t(x);
    return "handler";
  };
  unsigned kind = sym_pick(6, "kind");
  Lex::Default d1, d2;
  switch (kind) {
  case 0:
    d1 = Val(dv);
    d2 = TextView("other");
    break;
  case 1:
    d1 = TextView("other");
    d2 = Val(dv);
    break;
  case 2:
    d1 = nh;
    d2 = vh;
    break;
  case 3:
    d1 = vh;
    d2 = Val(dv);
    break;
  case 4:
    d1 = nh;
    break;
  case 5:
    d1 = TextView("other");
    break;
  }
  unsigned how = sym_pick(3, "how");
  Lex lex{how == 0 ? d1 : Lex::Default{}, how == 0 ? d2 : Lex::Default{}};
  if (how == 1) {
    lex.set_default(d1).set_default(d2);
  } else if (how == 2) { // replaced
    lex.set_default(Val(uint8_t(~dv))).set_default(TextView("replaced"));
    lex.set_default(d2).set_default(d1);
  }
  if (how == 2 && kind >= 4)
    return;
  bool thrown = false;
  Val got{};
  try {
    got = lex[str(name)];
  } catch (std::domain_error &) {
    thrown = true;
  }
  bool nhandler = kind == 2 || kind == 4;
  CHECK(thrown == (kind == 5));
  CHECK(thrown || uint8_t(got) == dv);
  CHECK(calls == (nhandler ? 1u : 0u));
  CHECK(!nhandler || (asked.data() == name.p && asked.size() == 2));
  calls = 0;
  thrown = false;
  TextView n;
  try {
    n = lex[Val(v)];
  } catch (std::domain_error &) {
    thrown = true;
  }
  bool vhandler = kind == 2 || kind == 3;
  CHECK(thrown == (kind == 4));
  CHECK(thrown || same(n, TextView{std::string_view(vhandler ? "handler" : "other")}));
  CHECK(calls == (vhandler ? 1u : 0u));
  CHECK(!vhandler || asked_v == v);
  REACH("done");
}
HARNESS(h_lex_iter)
{
  unsigned kind = sym_pick(2, "kind");
  Lex lex = kind ? Lex{Lex::with_multi{{Val(1), {"one", "uno"}}, {Val(2), {"two", "dos", "Zwei"}}, {Val(9), {"nine"}}}, Val(77), TextView("dflt")} :
                   Lex{Lex::with{{Val(1), "one"}, {Val(2), "two"}, {Val(9), "nine"}}, TextView("dflt"), Val(77)};
  Ref r;
  auto def = [&](TextView n, uint8_t v) { r.d[r.n++] = {n, v}; };
  def("one", 1);
  def("two", 2);
  def("nine", 9);
  if (kind) {
    def("uno", 1);
    def("dos", 2);
    def("Zwei", 2);
  }
  iterate(lex, r);
  Block p{3, "p"};
  probe(lex, r, str(p), sym_u8("pv"), true, true);
  probe(lex, r, "ZWEI", sym_u8("pv2"), true, true);
  // backward from the last element
  auto it = lex.begin(), last = it;
  for (unsigned i = 1; i < 3; ++i)
    last = ++it;
  auto post = it++;
  CHECK(post == last && it == lex.end());
  auto second = lex.begin();
  ++second;
  auto b = last;
  CHECK(--b == second);
  CHECK(b-- == second);
  CHECK(b == lex.begin());
  CHECK(b->_name.data() == (*lex.begin())._name.data());
  auto nit = lex.begin_names();
  auto n1 = nit;
  ++n1;
  auto n2 = n1;
  CHECK(--n2 == nit);
  CHECK(n1-- != nit);
  CHECK(n1 == nit);
  // formatting
  swoc::LocalBufferWriter<256> w;
  w.print("{:s}", lex);
  TextView t{w.view()};
  unsigned parts = 0;
  while (t) {
    auto token = t.take_prefix_at(',');
    bool found = false;
    for (unsigned i = 0; i < 3; ++i)
      found = found | same(token, r.d[i].name);
    CHECK(found);
    ++parts;
  }
  CHECK(parts == 3);
  w.clear();
  w.print("{:d}", lex);
  t = w.view();
  CHECK(t.size() == 5 && t[1] == ',' && t[3] == ',');
  // both parts, as pairs
  w.clear();
  w.print("{}", lex);
  t     = w.view();
  parts = 0;
  static const TextView numbers[] = {"1", "2", "9"};
  while (t) {
    CHECK(t[0] == '[');
    auto token = t.remove_prefix(1).take_prefix_at(']');
    auto name  = token.take_prefix_at(',');
    bool found = false;
    for (unsigned i = 0; i < 3; ++i)
      found = found | (same(name, r.d[i].name) && same(token, numbers[i]));
    CHECK(found);
    CHECK(t.empty() || t[0] == ',');
    t.remove_prefix(1);
    ++parts;
  }
  CHECK(parts == 3);
  REACH("done");
}
