// Formatted output: capacity independence, integers, format strings, text.
//@ entry h_fmt_int64 props=B03 shards=8 : every 64 bit signed and unsigned value, in every type (g d x X b B o), with and without radix prefix, every sign option
//@ entry h_fmt_int_types props=B03 shards=8 : every value of every 8, 16, 32 bit integer type with default format, in decimal and hexadecimal
//@ entry h_fmt_int_field props=B03,B02 shards=8 : every 8 bit signed value with any fill character, every alignment, sign option, radix prefix, zero flag, type, minimum width 0..11, maximum 0..6 or none, through parsed format text and directly
//@ entry h_fmt_capacity props=B02 shards=8 : text argument of 0..3 (thorough 4) arbitrary bytes with any fill, every alignment, minimum width 0..6, maximum 0..5 or none, precision 1, 2 or none, between literals, into buffers of 0..10 bytes
//@ entry h_fmt_capacity_arena props=B02,M03 shards=4 : the same text argument (0, 2 bytes, width 0, 3, 7) into an arena writer with 0..9 bytes left
#include "vf.h"
#include "swoc/BufferWriter.h"
#include "swoc/ArenaWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
using namespace swoc;
using bwf::Spec;

struct Out {
  uint8_t b[128];
  size_t n = 0;
  void put(uint8_t c) { b[n++] = c; }
  void put(Out const &o)
  {
    for (size_t i = 0; i < o.n; ++i)
      put(o.b[i]);
  }
  void fill(uint8_t c, size_t k)
  {
    while (k--)
      put(c);
  }
  void text(char const *s)
  {
    while (*s)
      put(*s++);
  }
};
// The output as the first cap bytes of o, and its extent.
static void expect(FixedBufferWriter &w, Out const &o, char const *m)
{
  sym_check(w.extent() == o.n, m);
  TextView v = w.view();
  size_t n   = o.n < w.capacity() ? o.n : w.capacity();
  sym_check(v.size() == n, m);
  bool ok = true;
  for (size_t i = 0; i < n; ++i)
    ok = all(ok, uint8_t(v.data()[i]) == o.b[i]);
  sym_check(ok, m);
}
static const char UP[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", LOW[] = "0123456789abcdefghijklmnopqrstuvwxyz";
static void digits(Out &o, uint64_t v, unsigned radix, bool upper)
{
  uint8_t t[64];
  int k = 0;
  do {
    t[k++] = (upper ? UP : LOW)[v % radix];
    v /= radix;
  } while (v);
  while (k)
    o.put(t[--k]);
}
static Out ref_int(uint64_t mag, bool neg, char type, char sign, bool lead, char align, uint8_t fill, size_t min, size_t max)
{
  Out o, s, d;
  bool upper = type == 'X' || type == 'B';
  if (sign != ' ') {
    if (neg)
      s.put('-');
    else if (sign == '+')
      s.put('+');
  }
  switch (type) {
  case 'x':
  case 'X':
    digits(d, mag, 16, upper);
    break;
  case 'b':
  case 'B':
    digits(d, mag, 2, upper);
    break;
  case 'o':
    digits(d, mag, 8, upper);
    break;
  default:
    digits(d, mag, 10, false);
  }
  if (lead && (type == 'x' || type == 'X' || type == 'b' || type == 'B' || type == 'o')) {
    s.put('0');
    if (type != 'o')
      s.put(type);
  }
  size_t n = s.n + d.n, pad = n < min ? min - n : 0;
  switch (align) {
  case '>':
    o.fill(fill, pad), o.put(s), o.put(d);
    break;
  case '^':
    o.fill(fill, pad / 2), o.put(s), o.put(d), o.fill(fill, pad - pad / 2);
    break;
  case '=':
    o.put(s), o.fill(fill, pad), o.put(d);
    break;
  default:
    o.put(s), o.put(d), o.fill(fill, pad);
  }
  if (o.n > max)
    o.n = max;
  return o;
}
static const char TYPES[] = {'g', 'd', 'x', 'X', 'b', 'B', 'o'};
static const char SIGNS[] = {'-', '+', ' '};
static const char ALIGN[] = {0, '<', '>', '^', '='};

static Spec::Align spec_align(char a)
{
  return a == '<' ? Spec::Align::LEFT : a == '>' ? Spec::Align::RIGHT : a == '^' ? Spec::Align::CENTER : a == '=' ? Spec::Align::SIGN : Spec::Align::NONE;
}
HARNESS(h_fmt_int64)
{
  unsigned k = sym_split(7 * 2 * 2 * 3, "kind");
  Spec spec;
  char type = TYPES[k % 7], sign = SIGNS[k / 28];
  bool sgnd = k / 7 % 2, lead = k / 14 % 2;
  spec._type         = type;
  spec._sign         = sign;
  spec._radix_lead_p = lead;
  uint64_t v         = sym_u64("v");
  Block b(72);
  FixedBufferWriter w{b.p, b.n};
  bool neg = false;
  if (sgnd) {
    bwformat(w, spec, int64_t(v));
    if (int64_t(v) < 0) {
      neg = true;
      v   = 0 - v;
    }
  } else
    bwformat(w, spec, v);
  expect(w, ref_int(v, neg, type, sign, lead, 0, ' ', 0, ~0u), "integer text");
}
template <typename T> static void int_type(uint64_t raw, Spec const &spec, char type)
{
  T v = T(raw);
  Block b(40);
  FixedBufferWriter w{b.p, b.n};
  bwformat(w, spec, v);
  uint64_t m = uint64_t(v);
  bool neg   = false;
  if (v < 0) {
    neg = true;
    m   = 0 - m;
  }
  expect(w, ref_int(m, neg, type, '-', false, 0, ' ', 0, ~0u), "integer type");
}
HARNESS(h_fmt_int_types)
{
  unsigned k = sym_split(18, "kind");
  Spec spec;
  char type  = k % 2 ? 'x' : 'g';
  spec._type = type;
  switch (k / 2) {
  case 0:
    return int_type<signed char>(sym_u8("v"), spec, type);
  case 1:
    return int_type<unsigned char>(sym_u8("v"), spec, type);
  case 2:
    return int_type<short>(sym_u16("v"), spec, type);
  case 3:
    return int_type<unsigned short>(sym_u16("v"), spec, type);
  case 4:
    return int_type<int>(sym_u32("v"), spec, type);
  case 5:
    return int_type<unsigned>(sym_u32("v"), spec, type);
  case 6:
    return int_type<long long>(sym_u64("v"), spec, type);
  case 7:
    return int_type<unsigned long long>(sym_u64("v"), spec, type);
  case 8:
    return int_type<long>(sym_u64("v"), spec, type);
  }
}
struct Fmt {
  char s[32];
  size_t n = 0;
  void put(char c) { s[n++] = c; }
  void num(size_t v)
  {
    if (v > 9)
      num(v / 10);
    put('0' + v % 10);
  }
  TextView view() const { return {s, n}; }
};
static void put_fill(Fmt &f, uint8_t &fill, char align, unsigned kind)
{
  if (!align) {
    fill = ' ';
    return;
  }
  if (kind == 1) { // URI encoded
    f.put('%');
    f.put("0123456789abcdef"[fill >> 4]);
    f.put("0123456789ABCDEF"[fill & 15]);
  } else if (kind == 2) {
    ASSUME(all(fill != '{', fill != '}', fill != ':', fill != '%'));
    f.put(fill);
  } else
    fill = ' ';
  f.put(align);
}
HARNESS(h_fmt_int_field)
{
  unsigned k = sym_split(5 * 3 * 7, "kind");
  char align = ALIGN[k % 5], sign = SIGNS[k / 5 % 3], type = TYPES[k / 15];
  static const size_t MIN[] = {0, 3, 4, 11};
  static const size_t MAX[] = {~0u, 0, 2, 6};
  bool lead  = sym_pick(2, "lead");
  unsigned mi = sym_pick(4, "min"), ma = sym_pick(4, "max"), fk = sym_pick(3, "fkind");
  uint8_t fill = fk == 1 ? uint8_t(0xc3) : sym_u8("fill");
  bool zero    = fk == 0 && sym_pick(2, "zero");
  Fmt f;
  f.put('{'), f.put(':');
  put_fill(f, fill, align, fk);
  if (sign != '-' || mi == 1)
    f.put(sign);
  if (lead)
    f.put('#');
  if (zero) {
    f.put('0');
    fill = '0';
    if (!align)
      align = '=';
  }
  if (mi)
    f.num(MIN[mi]);
  if (type != 'g' || ma % 2)
    f.put(type);
  if (ma) {
    f.put(',');
    f.num(MAX[ma]);
  }
  f.put('}');
  int8_t v = int8_t(sym_u8("v"));
  Block b(24);
  FixedBufferWriter w{b.p, b.n};
  if (align && !ma && sym_pick(2, "direct")) { // as a formatter for another type does.
    Spec spec;
    spec._type         = type;
    spec._sign         = sign;
    spec._radix_lead_p = lead;
    spec._fill         = fill;
    spec._min          = MIN[mi];
    spec._align        = spec_align(align);
    bwformat(w, spec, v);
  } else
    w.print(f.view(), v);
  unsigned m = v < 0 ? unsigned(-v) : unsigned(v);
  expect(w, ref_int(m, v < 0, type, sign, lead, align, fill, MIN[mi], MAX[ma]), "integer field");
}
static Out ref_text(char const *s, size_t n, char align, uint8_t fill, size_t min, size_t max)
{
  Out o, d;
  for (size_t i = 0; i < n; ++i)
    d.put(s[i]);
  size_t pad = n < min ? min - n : 0;
  switch (align) {
  case '>':
  case '=':
    o.fill(fill, pad), o.put(d);
    break;
  case '^':
    o.fill(fill, pad / 2), o.put(d), o.fill(fill, pad - pad / 2);
    break;
  default:
    o.put(d), o.fill(fill, pad);
  }
  if (o.n > max)
    o.n = max;
  return o;
}
static Out text_case(Fmt &f, Block &s, unsigned align_idx)
{
  static const size_t MIN[] = {0, 1, 4, 6};
  static const size_t MAX[] = {~0u, 0, 1, 3, 5};
  unsigned mi = sym_pick(4, "min"), ma = sym_pick(5, "max"), pr = sym_pick(3, "prec");
  uint8_t fill = sym_u8("fill");
  char align   = ALIGN[align_idx];
  f.put('{'), f.put(':');
  put_fill(f, fill, align, 2);
  if (mi)
    f.num(MIN[mi]);
  size_t n = s.n;
  if (pr) {
    f.put('.');
    f.num(pr);
    if (n > pr)
      n = pr;
  }
  if (ma) {
    f.put(',');
    f.num(MAX[ma]);
  }
  f.put('}');
  return ref_text(s.p, n, align, fill, MIN[mi], MAX[ma]);
}
HARNESS(h_fmt_capacity)
{
  unsigned k = sym_split(5 * BOUND(4, 5), "kind");
  Block s(k / 5, "text");
  Fmt f;
  Out o, r;
  f.put('<');
  o.put('<');
  r = text_case(f, s, k % 5);
  o.put(r);
  f.put('>');
  o.put('>');
  static const size_t CAP[] = {0, 1, 2, 3, 5, 7, 10};
  size_t cap = CAP[sym_pick(7, "cap")];
  Block b(cap);
  FixedBufferWriter w{b.p, cap};
  w.print(f.view(), TextView{s.p, s.n});
  expect(w, o, "text in bounded buffer");
}
HARNESS(h_fmt_capacity_arena)
{
  unsigned k = sym_split(5 * 2 * 3, "kind");
  static const size_t MIN[] = {0, 3, 7};
  Block s(k / 5 % 2 * 2, "text");
  char align  = ALIGN[k % 5];
  size_t min  = MIN[k / 10];
  uint8_t fill = '*';
  Fmt f;
  f.put('a'), f.put('{'), f.put(':');
  if (align)
    f.put('*'), f.put(align);
  else
    fill = ' ';
  if (min)
    f.num(min);
  f.put('}'), f.put('z');
  Out o;
  o.put('a');
  o.put(ref_text(s.p, s.n, align, fill, min, ~0u));
  o.put('z');
  MemArena arena{64};
  arena.alloc(1);
  size_t left = sym_pick(10, "left");
  arena.alloc(arena.remaining() - left);
  ArenaWriter w{arena};
  w.print(f.view(), TextView{s.p, s.n});
  expect(w, o, "text in arena");
}
