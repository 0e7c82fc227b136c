// Format strings: parsing of the string, of the specifiers, argument lookup.
//@ entry h_fp_split props=B04 shards=8 : every format string of 0..7 (thorough 8) bytes, split by Format into literals and specifiers
//@ entry h_fp_spec props=B04 shards=8 : every specifier text of 0..7 (thorough 8) bytes
//@ entry h_fp_print props=B04 shards=8 : every format string of 0..5 (thorough 6) bytes printed with two arguments, directly and preparsed
//@ entry h_fp_index props=B04 shards=4 : three specifiers, each unnamed, with an index of 1..2 arbitrary digits or one of the overflow indices, between arbitrary literal bytes, with 0..3 arguments
//@ entry h_fp_names props=B04 shards=4 : specifier names of 1..3 arbitrary bytes (no digits only, braces, colon) looked up in an external and a context name table with two names
#include "vf.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
using namespace swoc;
using bwf::Spec;

// Reference: items of a format string.
struct Item {
  bool spec;
  size_t off, n;
};
struct Ref {
  Item it[8];
  int n     = 0;
  bool bad  = false;
  uint8_t o[16]; // all literal text, in order
  size_t on = 0;
};
static void ref_split(Ref &r, char const *s, size_t n)
{
  size_t i = 0;
  while (i < n) {
    if (s[i] != '{' && s[i] != '}') {
      r.o[r.on++] = s[i++];
      continue;
    }
    if (i + 1 >= n) {
      r.bad = true;
      return;
    }
    if (s[i] == s[i + 1]) {
      r.o[r.on++] = s[i];
      i += 2;
      continue;
    }
    if (s[i] == '}') {
      r.bad = true;
      return;
    }
    size_t e = i + 1;
    while (e < n && s[e] != '}')
      ++e;
    if (e >= n) {
      r.bad = true;
      return;
    }
    r.it[r.n++] = Item{true, r.on, e - i - 1};
    r.it[r.n - 1].off = i + 1;
    r.o[r.on++] = 1; // marker in the literal text
    i           = e + 1;
  }
}
// Reference: specifier grammar. 1 well formed, 0 not (then the result is not specified).
struct RSpec {
  size_t name_n, ext_off;
  bool name_num;
  uint64_t idx;
  char fill = ' ', sign = '-', type = 'g';
  char align = 0;
  bool lead         = false;
  bool mark         = false; // precision or maximum width mark without a number
  uint64_t min = 0, max = ~0u;
  int64_t prec = -1;
};
static bool dig(char c) { return all(c >= '0', c <= '9'); }
static bool hex(char c) { return any(dig(c), all(c >= 'a', c <= 'f'), all(c >= 'A', c <= 'F')); }
static int hexv(char c) { return (c & 15) + 9 * (c > '9'); }
static char aln(char c) { return char((c == '<') * 1 + (c == '>') * 2 + (c == '^') * 3 + (c == '=') * 4); }
static bool typ(char c)
{
  bool r = false;
  for (char const *p = "gsSxXdobBpP"; *p; ++p)
    r = any(r, c == *p);
  return r;
}
static char idx_of(Spec::Align a)
{
  return char((a == Spec::Align::LEFT) * 1 + (a == Spec::Align::RIGHT) * 2 + (a == Spec::Align::CENTER) * 3 + (a == Spec::Align::SIGN) * 4);
}
static bool num(char const *s, size_t &i, size_t n, uint64_t &v)
{
  size_t b = i;
  v        = 0;
  while (i < n && dig(s[i]))
    v = v * 10 + (s[i++] - '0');
  return i > b;
}
static bool ref_spec(RSpec &r, char const *s, size_t n)
{
  size_t i = 0;
  while (i < n && s[i] != ':')
    ++i;
  r.name_n = i;
  size_t j = 0;
  r.name_num = num(s, j, i, r.idx) && j == i;
  r.ext_off  = n;
  if (i >= n)
    return true;
  size_t b = ++i, e = b;
  while (e < n && s[e] != ':')
    ++e;
  r.ext_off = e < n ? e + 1 : n;
  if (i < e && s[i] == '%') {
    if (e - i < 4 || !all(hex(s[i + 1]), hex(s[i + 2]), aln(s[i + 3]) != 0))
      return false;
    r.fill  = char(hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
    r.align = aln(s[i + 3]);
    i += 4;
  } else if (i + 1 < e && aln(s[i + 1])) {
    r.fill  = s[i];
    r.align = aln(s[i + 1]);
    i += 2;
  } else if (i < e && aln(s[i]))
    r.align = aln(s[i++]);
  if (i < e && any(s[i] == '+', s[i] == '-', s[i] == ' '))
    r.sign = s[i++];
  if (i < e && s[i] == '#')
    r.lead = true, ++i;
  if (i < e && s[i] == '0') {
    if (!r.align)
      r.align = 4;
    r.fill = '0';
    ++i;
  }
  uint64_t v;
  if (num(s, i, e, v))
    r.min = v;
  if (i < e && s[i] == '.') {
    ++i;
    if (!num(s, i, e, v)) {
      r.mark = true;
      return false;
    }
    r.prec = v;
  }
  bool type = false;
  if (i < e && typ(s[i]))
    r.type = s[i++], type = true;
  if (i < e && s[i] == ',') {
    ++i;
    if (!num(s, i, e, v)) {
      r.mark = true;
      return false;
    }
    r.max = v;
    if (!type && i < e && typ(s[i]))
      r.type = s[i++];
  }
  return i == e;
}
static bool same(std::string_view a, char const *s, size_t n) { return a.size() == n && (n == 0 || a.data() == s); }
static void check_spec(Spec const &x, char const *s, size_t n)
{
  RSpec r;
  if (!ref_spec(r, s, n)) {
    CHECKM(!r.mark, "a precision or maximum width mark without a number must be rejected");
    return;
  }
  CHECKM(same(x._name, s, r.name_n), "specifier name");
  CHECKM(same(x._ext, s + r.ext_off, n - r.ext_off), "specifier extension");
  if (r.name_num)
    CHECKM(uint64_t(int64_t(x._idx)) == r.idx, "specifier index");
  else if (r.name_n)
    CHECKM(x._idx < 0, "specifier index");
  CHECKM(all(x._fill == r.fill, x._sign == r.sign, x._type == r.type, idx_of(x._align) == r.align), "specifier fill, sign, type, alignment");
  CHECKM(x._radix_lead_p == r.lead, "specifier radix prefix");
  CHECKM(all(x._min == r.min, x._max == r.max, int64_t(x._prec) == r.prec), "specifier widths");
}
HARNESS(h_fp_spec)
{
  size_t n = sym_split(BOUND(8, 9), "n");
  Block s(n, "s");
  if (n >= 3)
    ASSUME(sym_split(2, "first") ? s[0] == ':' : s[0] != ':');
  if (n >= 4)
    ASSUME(sym_split(2, "second") ? s[1] == ':' : s[1] != ':');
  bool threw = false;
  Spec x;
  try {
    x = Spec{TextView{s.p, n}};
  } catch (std::invalid_argument &) {
    threw = true;
  }
  if (threw) {
    RSpec r;
    CHECKM(!ref_spec(r, s.p, n), "well formed specifier rejected");
    REACH("rejected");
  } else
    check_spec(x, s.p, n);
}
static void put(uint8_t *o, size_t &on, std::string_view v)
{
  for (char c : v)
    o[on++] = c;
}
HARNESS(h_fp_split)
{
  size_t n = sym_split(BOUND(8, 9), "n");
  Block s(n, "s");
  if (n >= 3) {
    unsigned k = sym_split(3, "first");
    ASSUME(k == 0 ? s[0] == '{' : k == 1 ? s[0] == '}' : s[0] != '{' && s[0] != '}');
  }
  if (n >= 4) {
    unsigned k = sym_split(3, "second");
    ASSUME(k == 0 ? s[1] == '{' : k == 1 ? s[1] == '}' : s[1] != '{' && s[1] != '}');
  }
  bool threw = false;
  bwf::Format f;
  try {
    bwf::Format g{TextView{s.p, n}};
    f._items.swap(g._items);
  } catch (std::invalid_argument &) {
    threw = true;
  }
  Ref r;
  ref_split(r, s.p, n);
  if (threw) {
    if (!r.bad) { // then one of the specifiers must be malformed
      bool bad = false;
      for (int i = 0; i < r.n; ++i) {
        RSpec q;
        bad |= !ref_spec(q, s.p + r.it[i].off, r.it[i].n);
      }
      CHECKM(bad, "well formed format string rejected");
    }
    REACH("rejected");
    return;
  }
  CHECKM(!r.bad, "malformed format string accepted");
  if (r.bad)
    return;
  uint8_t o[16];
  size_t on = 0;
  int k     = 0;
  for (auto &item : f) {
    if (item._type == Spec::LITERAL_TYPE)
      put(o, on, item._ext);
    else {
      o[on++] = 1;
      CHECKM(k < r.n, "number of specifiers");
      if (k < r.n)
        CHECKM(same(item._name, s.p + r.it[k].off, item._name.size()) && item._name.size() <= r.it[k].n, "specifier");
      ++k;
    }
  }
  CHECKM(k == r.n, "number of specifiers");
  CHECKM(on == r.on, "literal text");
  bool ok = on == r.on;
  for (size_t i = 0; ok && i < on; ++i)
    ok = all(ok, o[i] == r.o[i]);
  CHECKM(ok, "literal text");
  CHECKM(f.is_literal() == (r.n == 0), "is_literal");
}
HARNESS(h_fp_print)
{
  size_t n = sym_split(BOUND(6, 7), "n");
  Block s(n, "s");
  if (n >= 3) {
    unsigned k = sym_split(3, "first");
    ASSUME(k == 0 ? s[0] == '{' : k == 1 ? s[0] == '}' : s[0] != '{' && s[0] != '}');
  }
  if (n >= 4) {
    unsigned k = sym_split(3, "second");
    ASSUME(k == 0 ? s[1] == '{' : k == 1 ? s[1] == '}' : s[1] != '{' && s[1] != '}');
  }
  Ref r;
  bool threw = false, threw2 = false;
  LocalBufferWriter<96> w, w2;
  bool big = false;
  for (size_t i = 0; i + 1 < n; ++i) // widths above 9 only make long paths
    big |= dig(s[i]) && dig(s[i + 1]);
  ASSUME(!big);
  try {
    w.print(TextView{s.p, n}, 'A', TextView{"bc"});
  } catch (std::invalid_argument &) {
    threw = true;
  }
  try {
    bwf::Format f{TextView{s.p, n}};
    w2.print(f, 'A', TextView{"bc"});
  } catch (std::invalid_argument &) {
    threw2 = true;
  }
  CHECKM(threw == threw2, "preparsed format");
  if (!threw && !threw2) {
    CHECKM(w.size() == w2.size(), "preparsed format");
    bool ok = true;
    for (size_t i = 0; i < w.size() && i < w2.size(); ++i)
      ok = all(ok, w.view()[i] == w2.view()[i]);
    CHECKM(ok, "preparsed format");
  }
  ref_split(r, s.p, n);
  if (r.bad)
    CHECKM(threw, "malformed format string printed");
  if (threw)
    return;
  // plain specifiers only
  uint8_t o[96];
  size_t on = 0;
  int k = 0, next = 0;
  for (size_t i = 0; i < r.on; ++i) {
    if (k < r.n && r.o[i] == 1 && r.it[k].n <= 1) {
      char c = r.it[k].n ? s.p[r.it[k].off] : '0' + next++;
      if (c == ':')
        return;
      if (c == '0')
        o[on++] = 'A';
      else if (c == '1')
        o[on++] = 'b', o[on++] = 'c';
      else if (dig(c)) {
        put(o, on, "{BAD_ARG_INDEX:");
        o[on++] = c;
        put(o, on, " of 2}");
      } else {
        put(o, on, "{~");
        o[on++] = c;
        put(o, on, "~}");
      }
      ++k;
    } else if (r.o[i] == 1)
      return;
    else
      o[on++] = r.o[i];
  }
  CHECKM(w.size() == on, "printed text");
  bool ok = true;
  for (size_t i = 0; i < on && i < w.size(); ++i)
    ok = all(ok, uint8_t(w.view()[i]) == o[i]);
  CHECKM(ok, "printed text");
}
HARNESS(h_fp_index)
{
  static char const *const BIG[] = {"4294967296", "4294967297", "2147483648", "18446744073709551616", "18446744073709551617", "00000000000000000001"};
  unsigned N = sym_split(4, "args");
  char f[80];
  size_t fn = 0;
  char lit[3];
  unsigned idx[3], next = 0;
  for (int i = 0; i < 3; ++i) {
    lit[i] = sym_u8("lit");
    ASSUME(all(lit[i] != '{', lit[i] != '}'));
    f[fn++]    = lit[i];
    f[fn++]    = '{';
    unsigned k = i == 1 ? sym_pick(9, "kind") : sym_pick(3, "kind");
    idx[i]     = 0;
    if (k == 0)
      idx[i] = next++;
    else if (k < 3) {
      for (unsigned j = 0; j < k; ++j) {
        char d = sym_u8("digit");
        ASSUME(dig(d));
        f[fn++] = d;
        idx[i]  = idx[i] * 10 + (d - '0');
      }
    } else {
      for (char const *p = BIG[k - 3]; *p; ++p)
        f[fn++] = *p;
      idx[i] = k == 8 ? 1 : 1000;
    }
    f[fn++] = '}';
  }
  Block s(fn);
  memcpy(s.p, f, fn);
  LocalBufferWriter<256> w;
  TextView fmt{s.p, s.n};
  switch (N) {
  case 0:
    w.print(fmt);
    break;
  case 1:
    w.print(fmt, 'X');
    break;
  case 2:
    w.print(fmt, 'X', 'Y');
    break;
  case 3:
    w.print(fmt, 'X', 'Y', 'Z');
    break;
  }
  TextView v = w.view();
  size_t p   = 0;
  bool ok    = true;
  for (int i = 0; i < 3 && ok; ++i) {
    ok = p < v.size() && v[p] == lit[i];
    ++p;
    if (idx[i] < N) {
      ok = ok && p < v.size() && v[p] == "XYZ"[idx[i]];
      ++p;
      continue;
    }
    static char const M[] = "{BAD_ARG_INDEX:";
    for (size_t j = 0; j < sizeof(M) - 1 && ok; ++j)
      ok = p < v.size() && v[p++] == M[j];
    while (p < v.size() && v[p] != '}')
      ++p;
    ok = ok && p < v.size();
    ++p;
  }
  CHECKM(ok, "indexed output");
  CHECKM(p == v.size(), "indexed output length");
}
struct Ctx {
  int n = 0;
};
HARNESS(h_fp_names)
{
  unsigned k = sym_split(6, "kind");
  size_t n   = k % 3 + 1;
  Block s(n + 2);
  s[0] = '{', s[n + 1] = '}';
  bool nondigit = false;
  for (size_t i = 0; i < n; ++i) {
    char c = sym_u8("c");
    ASSUME(all(c != '{', c != '}', c != ':'));
    nondigit = any(nondigit, !dig(c));
    s[i + 1] = c;
  }
  ASSUME(nondigit);
  LocalBufferWriter<32> w;
  bool a  = n == 1 && s[1] == 'a';
  bool bc = n == 2 && s[1] == 'b' && s[2] == 'c';
  char const *A = "<1>", *B = "<2>";
  if (k < 3) {
    bwf::ExternalNames names;
    names.assign("a", [](BufferWriter &w, Spec const &) -> BufferWriter & { return w.write("<1>"); });
    names.assign("bc", [](BufferWriter &w, Spec const &) -> BufferWriter & { return w.write("<2>"); });
    CHECK(names.contains("a"));
    CHECK(!names.contains("b"));
    w.print_n(names.bind(), TextView{s.p, s.n});
  } else {
    bwf::ContextNames<Ctx> names;
    Ctx ctx;
    names.assign("a", [](BufferWriter &w, Spec const &, Ctx &c) -> BufferWriter & { return ++c.n, w.write("<1>"); });
    names.assign("bc", [](BufferWriter &w, Spec const &, Ctx &c) -> BufferWriter & { return ++c.n, w.write("<2>"); });
    w.print_n(names.bind(ctx), TextView{s.p, s.n});
    CHECK(ctx.n == (a || bc));
  }
  TextView v = w.view();
  if (a || bc) {
    CHECK(v == (a ? A : B));
  } else {
    CHECK(v.size() == n + 4);
    CHECK(v.starts_with("{~") && v.ends_with("~}"));
    bool ok = true;
    for (size_t i = 0; i < n; ++i)
      ok = all(ok, v[i + 2] == s[i + 1]);
    CHECK(ok);
  }
}
