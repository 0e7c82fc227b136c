// Formatting of text, memory, characters, pointers, wrappers; printing to strings.
//@ entry h_ft_string props=B05 shards=8 : text of 0..3 (thorough 5) arbitrary bytes as view, C string or std::string, type g, s, S, x, X, precision none, 1, 2, every alignment, width 0, 2, 7, through format text and directly
//@ entry h_ft_scalar props=B05 shards=4 : every char, bool, pointer value, null pointers, in every type, pointers of 16 bits in fields with any fill and alignment
//@ entry h_ft_memory props=B05 shards=4 : memory of 0..4 (thorough 7) arbitrary bytes in blocks of 1, 2, 3 or undivided, spans of 2 and 4 byte elements, hex dumps of objects
//@ entry h_ft_wrappers props=B05 shards=4 : Pattern (0..3 repeats, maximum 0..5), UnHex of 0..5 arbitrary bytes, FirstOf / If / Optional of every emptiness combination, bitset of any 6 bits, atomic, duration of any value
//@ entry h_ft_errno props=B05 shards=4 : every int as errno, short name and number
//@ entry h_fs_bwprint props=B06 shards=8 : previous string of 0..20 bytes with capacity 15, 20, 32, output of 0..40 bytes (literal, text, padding)
//@ entry h_fs_bwappend props=B06 shards=8 : previous string of 0..20 bytes with capacity 15, 20, 32, output of 0..40 bytes (literal, text, padding)
#include "vf.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_std.h"
#include <string>
#include <cerrno>
using namespace swoc;
using bwf::Spec;

struct Out {
  uint8_t b[160];
  size_t n = 0;
  void put(uint8_t c) { b[n++] = c; }
  void put(Out const &o)
  {
    for (size_t i = 0; i < o.n; ++i)
      put(o.b[i]);
  }
  void fill(uint8_t c, size_t k)
  {
    while (k--)
      put(c);
  }
  void text(char const *s)
  {
    while (*s)
      put(*s++);
  }
  void byte(uint8_t v, bool upper)
  {
    static const char U[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", L[] = "0123456789abcdefghijklmnopqrstuvwxyz";
    put((upper ? U : L)[v >> 4]);
    put((upper ? U : L)[v & 15]);
  }
};
static void expect(TextView v, Out const &o, char const *m)
{
  sym_check(v.size() == o.n, m);
  bool ok = true;
  for (size_t i = 0; i < o.n && i < v.size(); ++i)
    ok = all(ok, uint8_t(v.data()[i]) == o.b[i]);
  sym_check(ok, m);
}
struct Fmt {
  char s[40];
  size_t n = 0;
  void put(char c) { s[n++] = c; }
  void put(char const *t)
  {
    while (*t)
      put(*t++);
  }
  void num(size_t v)
  {
    if (v > 9)
      num(v / 10);
    put(char('0' + v % 10));
  }
  TextView view() const { return {s, n}; }
};
static uint8_t lower(uint8_t c) { return c + 32 * all(c >= 'A', c <= 'Z'); }
static uint8_t upper(uint8_t c) { return c - 32 * all(c >= 'a', c <= 'z'); }
static Out field(Out const &d, char align, uint8_t fill, size_t min)
{
  Out o;
  size_t pad = d.n < min ? min - d.n : 0;
  if (align == '>')
    o.fill(fill, pad), o.put(d);
  else if (align == '^')
    o.fill(fill, pad / 2), o.put(d), o.fill(fill, pad - pad / 2);
  else
    o.put(d), o.fill(fill, pad);
  return o;
}
HARNESS(h_ft_string)
{
  static const char TYPE[]  = {'g', 's', 'S', 'x', 'X'};
  static const char ALIGN[] = {0, '<', '>', '^'};
  static const size_t MIN[] = {0, 2, 7};
  unsigned k = sym_split(5 * 4, "kind");
  size_t n   = sym_pick(BOUND(4, 6), "n");
  char type = TYPE[k % 5], align = ALIGN[k / 5];
  size_t min = MIN[sym_pick(3, "min")], prec = sym_pick(3, "prec");
  unsigned src = sym_pick(3, "src");
  Block s(n, "text");
  Block z(n + 1);
  memcpy(z.p, s.p, n);
  z[n] = 0;
  if (src == 1) {
    for (size_t i = 0; i < n; ++i)
      ASSUME(s[i] != 0);
    if (type == 'x' || type == 'X') // a pointer
      return;
  }
  Fmt f;
  f.put("{:");
  if (align)
    f.put('*'), f.put(align);
  if (min)
    f.num(min);
  if (prec)
    f.put('.'), f.num(prec);
  f.put(type), f.put('}');
  LocalBufferWriter<64> w;
  if (src == 0 && align && type == 'g' && sym_pick(2, "direct")) { // as a formatter for another type does.
    Spec spec;
    spec._type  = type;
    spec._fill  = '*';
    spec._min   = min;
    if (prec)
      spec._prec = prec;
    spec._align = align == '<' ? Spec::Align::LEFT : align == '>' ? Spec::Align::RIGHT : Spec::Align::CENTER;
    bwformat(w, spec, TextView{s.p, n});
  } else if (src == 0)
    w.print(f.view(), TextView{s.p, n});
  else if (src == 1)
    w.print(f.view(), (char const *)z.p);
  else {
    std::string str{s.p, n};
    w.print(f.view(), str);
  }
  size_t m = prec && prec < n ? prec : n;
  Out d;
  for (size_t i = 0; i < m; ++i) {
    uint8_t c = s[i];
    if (type == 's')
      d.put(lower(c));
    else if (type == 'S')
      d.put(upper(c));
    else if (type == 'g')
      d.put(c);
    else
      d.byte(c, type == 'X');
  }
  expect(w.view(), field(d, align, align ? '*' : ' ', min), "text");
}
static void hexnum(Out &o, uint64_t v, bool up)
{
  bool on = false;
  for (int i = 60; i >= 0; i -= 4) {
    unsigned d = v >> i & 15;
    if (on || v >> i != 0 || i == 0) {
      on = true;
      o.put((up ? "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" : "0123456789abcdefghijklmnopqrstuvwxyz")[d]);
    }
  }
}
HARNESS(h_ft_scalar)
{
  unsigned k = sym_split(9, "kind");
  LocalBufferWriter<64> w;
  Out o;
  switch (k) {
  case 8: { // pointer in a field
    unsigned a = sym_pick(4, "align");
    size_t min = sym_pick(2, "min") * 9;
    bool up    = sym_pick(2, "upper");
    uint64_t v = sym_u16("p");
    ASSUME(v != 0);
    uint8_t fill = sym_u8("fill");
    Spec spec;
    spec._type  = up ? 'P' : 'p';
    spec._min   = min;
    spec._fill  = fill;
    spec._align = a == 0 ? Spec::Align::LEFT : a == 1 ? Spec::Align::RIGHT : a == 2 ? Spec::Align::CENTER : Spec::Align::SIGN;
    if (sym_pick(2, "direct"))
      bwformat(w, spec, (void const *)v);
    else {
      ASSUME(all(fill != '{', fill != '}', fill != ':', fill != '%'));
      Fmt f;
      f.put("{:"), f.put(char(fill)), f.put("<>^="[a]);
      if (min)
        f.num(min);
      f.put(spec._type), f.put('}');
      w.print(f.view(), (void const *)v);
    }
    Out d, n;
    n.text(up ? "0X" : "0x");
    hexnum(d, v, up);
    size_t pad = n.n + d.n < min ? min - n.n - d.n : 0;
    o.fill(fill, a == 1 ? pad : a == 2 ? pad / 2 : 0);
    o.put(n);
    o.fill(fill, a == 3 ? pad : 0);
    o.put(d);
    o.fill(fill, a == 0 ? pad : a == 2 ? pad - pad / 2 : 0);
    break;
  }
  case 0: {
    char c = sym_u8("c");
    w.print("{}|{:3}|{:>3}", c, c, c);
    o.put(c), o.text("|"), o.put(c), o.text("  |  "), o.put(c);
    break;
  }
  case 1: {
    bool b = sym_u8("b") & 1;
    w.print("{}|{:d}|{:s}|{:S}|{:x}", b, b, b, b, b);
    o.put('0' + b), o.put('|'), o.put('0' + b);
    o.text(b ? "|true|TRUE|" : "|false|FALSE|");
    o.put('0' + b);
    break;
  }
  case 2:
  case 3:
  case 4: {
    uint64_t v = sym_u64("p");
    void const *p = (void const *)v;
    if (k == 2) {
      w.print("{:p}", p);
      o.text("0x");
    } else if (k == 3) {
      w.print("{:P}", p);
      o.text("0X");
    } else {
      ASSUME(v != 0);
      w.print("{}", p);
      o.text("0x");
    }
    hexnum(o, v, k == 3);
    break;
  }
  case 5:
    w.print("{:s}|{:S}|{}|", (void const *)nullptr, nullptr, nullptr);
    o.text("null|NULL||");
    break;
  case 6:
    w.print("{:s}|{:S}|{}|", (char const *)nullptr, (char const *)nullptr, (char const *)nullptr);
    o.text("null|NULL||");
    break;
  case 7: {
    char const *s = "abc";
    LocalBufferWriter<64> w2;
    w.print("{:p}", s);
    w2.print("{:p}", (void const *)s);
    CHECK(w.view() == w2.view());
    CHECK(w.size() > 2);
    return;
  }
  }
  expect(w.view(), o, "scalar");
}
HARNESS(h_ft_memory)
{
  unsigned k = sym_split(4 * 2 * 2, "kind");
  bool up = k & 1, lead = k & 2;
  size_t block = k / 4;
  size_t n     = sym_pick(BOUND(5, 8), "n");
  Block s(n, "mem");
  Fmt f;
  f.put("{:");
  if (lead)
    f.put('#');
  if (block)
    f.put('.'), f.num(block);
  f.put(up ? 'X' : 'x');
  f.put('}');
  LocalBufferWriter<80> w;
  auto dump = [&](size_t blk) {
    Out o;
    for (size_t i = 0; i < n; ++i) {
      if (i % blk == 0) {
        if (i)
          o.put(' ');
        if (lead)
          o.put('0'), o.put(up ? 'X' : 'x');
      }
      o.byte(s[i], up);
    }
    return o;
  };
  unsigned how = sym_pick(4, "how");
  if (how == 0) {
    w.print(f.view(), MemSpan<void const>{s.p, n});
    expect(w.view(), dump(block ? block : n ? n : 1), "memory dump");
  } else if (how == 1) {
    w.print(f.view(), MemSpan<void>{s.p, n});
    expect(w.view(), dump(block ? block : n ? n : 1), "memory dump");
  } else if (how == 2) {
    if (n % 2 == 0) {
      w.print(f.view(), MemSpan<uint16_t>{(uint16_t *)s.p, n / 2});
      expect(w.view(), dump(block ? block : 2), "span dump");
    }
  } else if (n == 4 && block == 0) {
    uint32_t v;
    memcpy(&v, s.p, 4);
    w.print(f.view(), bwf::As_Hex(v));
    expect(w.view(), dump(4), "object dump");
  }
}
HARNESS(h_ft_wrappers)
{
  unsigned k = sym_split(8, "kind");
  LocalBufferWriter<64> w;
  Out o;
  switch (k) {
  case 0: {
    unsigned n = sym_pick(4, "n"), m = sym_pick(6, "max"), t = sym_pick(3, "text");
    Block s(t, "text");
    Fmt f;
    f.put("<{:,"), f.num(m), f.put("}>");
    w.print(f.view(), bwf::Pattern{int(n), {s.p, t}});
    o.put('<');
    for (unsigned i = 0; i < n * t && i < m; ++i)
      o.put(s[i % t]);
    o.put('>');
    break;
  }
  case 1: {
    size_t n = sym_pick(6, "n");
    Block s(n);
    for (size_t i = 0; i < n; ++i) {
      uint8_t v = sym_u8("nib"), u = sym_u8("case");
      ASSUME(all(v < 16, u < 2));
      s[i] = "0123456789abcdef0123456789ABCDEF"[v + 16 * u];
    }
    w.print("{}", bwf::UnHex(MemSpan<void const>{s.p, n}));
    for (size_t i = 0; i + 1 < n; i += 2) {
      auto h = [](uint8_t c) { return (c & 15) + 9 * (c > '9'); };
      o.put(h(s[i]) * 16 + h(s[i + 1]));
    }
    break;
  }
  case 2: {
    unsigned a = sym_pick(2, "a"), b = sym_pick(2, "b"), c = sym_pick(3, "c");
    std::string str(b ? "second" : "");
    w.print("{}", bwf::FirstOf(std::string_view{a ? "first" : ""}, str, c == 2 ? nullptr : c ? "third" : ""));
    o.text(a ? "first" : b ? "second" : c == 1 ? "third" : "");
    break;
  }
  case 3: {
    bool x   = sym_u8("x") & 1;
    unsigned v = sym_u8("v");
    ASSUME(v < 10);
    w.print("<{}>", bwf::If(x, "={}", v));
    if (x)
      o.text("<="), o.put('0' + v), o.text(">");
    else
      o.text("<>");
    break;
  }
  case 4: {
    unsigned n = sym_pick(3, "n");
    Block s(n, "text");
    TextView t{s.p, n};
    char const *z = n ? "z" : nullptr;
    w.print("<{}{}>", bwf::Optional("[{}]", t), bwf::Optional("({})", z));
    o.put('<');
    if (n) {
      o.put('[');
      for (unsigned i = 0; i < n; ++i)
        o.put(s[i]);
      o.put(']');
      o.text("(z)");
    }
    o.put('>');
    break;
  }
  case 5: {
    uint8_t v = sym_u8("v");
    std::bitset<6> b{v};
    w.print("{}", b);
    for (int i = 0; i < 6; ++i)
      o.put('0' + (v >> i & 1));
    break;
  }
  case 6: {
    uint8_t v = sym_u8("v");
    ASSUME(v < 10);
    std::atomic<unsigned> a{v};
    w.print("{:>3}", a);
    o.text("  "), o.put('0' + v);
    break;
  }
  case 7: {
    uint64_t v = sym_u64("v");
    std::chrono::seconds d{int64_t(v)};
    LocalBufferWriter<64> w2;
    w.print("{}", d);
    w2.print("{}", int64_t(v));
    CHECK(w.view() == w2.view());
    return;
  }
  }
  expect(w.view(), o, "wrapper");
}
static const struct {
  int e;
  char const *n;
} ERR[] = {
#define E(x) {x, #x}
  E(EPERM),   E(ENOENT),  E(ESRCH),   E(EINTR),        E(EIO),     E(ENXIO),  E(E2BIG),     E(ENOEXEC),   E(EBADF),        E(ECHILD),
  E(EAGAIN),  E(ENOMEM),  E(EACCES),  E(EFAULT),       E(ENOTBLK), E(EBUSY),  E(EEXIST),    E(EXDEV),     E(ENODEV),       E(ENOTDIR),
  E(EISDIR),  E(EINVAL),  E(ENFILE),  E(EMFILE),       E(ENOTTY),  E(ETXTBSY), E(EFBIG),    E(ENOSPC),    E(ESPIPE),       E(EROFS),
  E(EMLINK),  E(EPIPE),   E(EDOM),    E(ERANGE),       E(EDEADLK), E(ENAMETOOLONG), E(ENOLCK), E(ENOSYS),  E(ENOTEMPTY),    E(ELOOP),
  E(ENOMSG),  E(EIDRM),   E(ECHRNG),  E(EL2NSYNC),     E(EL3HLT),  E(EL3RST), E(ELNRNG),    E(EUNATCH),   E(ENOCSI),       E(EL2HLT),
  E(EBADE),   E(EBADR),   E(EXFULL),  E(ENOANO),       E(EBADRQC), E(EBADSLT), E(EBFONT),   E(ENOSTR),    E(ENODATA),      E(ETIME),
  E(ENOSR),   E(ENONET),  E(ENOPKG),  E(EREMOTE),      E(ENOLINK), E(EADV),   E(ESRMNT),    E(ECOMM),     E(EPROTO),       E(EMULTIHOP),
  E(EDOTDOT), E(EBADMSG), E(EOVERFLOW), E(ENOTUNIQ),   E(EBADFD),  E(EREMCHG), E(ELIBACC),  E(ELIBBAD),   E(ELIBSCN),      E(ELIBMAX),
  E(ELIBEXEC), E(EILSEQ), E(ERESTART), E(ESTRPIPE),    E(EUSERS),  E(ENOTSOCK), E(EDESTADDRREQ), E(EMSGSIZE), E(EPROTOTYPE), E(ENOPROTOOPT),
  E(EPROTONOSUPPORT), E(ESOCKTNOSUPPORT), E(EPFNOSUPPORT), E(EAFNOSUPPORT), E(EADDRINUSE), E(EADDRNOTAVAIL), E(ENETDOWN), E(ENETUNREACH),
  E(ENETRESET), E(ECONNABORTED), E(ECONNRESET), E(ENOBUFS), E(EISCONN), E(ENOTCONN), E(ESHUTDOWN), E(ETOOMANYREFS), E(ETIMEDOUT),
  E(ECONNREFUSED), E(EHOSTDOWN), E(EHOSTUNREACH), E(EALREADY), E(EINPROGRESS), E(ESTALE), E(EUCLEAN), E(ENOTNAM), E(ENAVAIL), E(EISNAM),
  E(EREMOTEIO), E(EDQUOT), E(ENOMEDIUM), E(EMEDIUMTYPE), E(ECANCELED), E(ENOKEY), E(EKEYEXPIRED), E(EKEYREVOKED), E(EKEYREJECTED),
  E(EOWNERDEAD), E(ENOTRECOVERABLE), E(ERFKILL), E(EHWPOISON),
};
HARNESS(h_ft_errno)
{
  unsigned k = sym_split(4, "kind");
  LocalBufferWriter<64> w;
  Out o;
  if (k == 0) { // known names
    unsigned i = sym_pick(sizeof(ERR) / sizeof(ERR[0]), "i");
    w.print("{:s:s}", bwf::Errno(ERR[i].e));
    o.text(ERR[i].n);
  } else if (k == 1) { // no such number
    int e = int(sym_u32("e"));
    ASSUME(any(e < 0, e > 4095));
    w.print("{:s:s}", bwf::Errno(e));
    o.text("Unknown");
  } else if (k == 2) {
    int e = int(sym_u32("e"));
    LocalBufferWriter<64> w2;
    w.print("{:d}", bwf::Errno(e));
    w2.print("[{}]", e);
    CHECK(w.view() == w2.view());
    return;
  } else {
    int e = int(sym_u32("e"));
    ASSUME(any(e < 0, e > 4095));
    LocalBufferWriter<64> w2;
    w.print("{::s}", bwf::Errno(e));
    w2.print("Unknown [{}]", e);
    CHECK(w.view() == w2.view());
    return;
  }
  expect(w.view(), o, "errno");
}
static void str_case(bool append)
{
  static const size_t LEN[] = {0, 1, 14, 15, 16, 20};
  static const size_t CAP[] = {0, 20, 32};
  static const size_t PAD[] = {0, 5, 13, 15, 31, 38};
  unsigned k = sym_split(18, "kind");
  size_t len = LEN[k % 6], cap = CAP[k / 6];
  std::string s;
  if (cap)
    s.reserve(cap);
  Block c(len, "old");
  s.assign(c.p, len);
  size_t tn  = sym_pick(4, "n");
  size_t pad = PAD[sym_pick(6, "pad")];
  bool lit   = sym_pick(2, "lit");
  Block t(tn, "text");
  Fmt f;
  if (lit)
    f.put('<');
  f.put("{:"), f.num(pad), f.put('}');
  if (lit)
    f.put('>');
  Out o;
  if (append)
    for (size_t i = 0; i < len; ++i)
      o.put(c[i]);
  if (lit)
    o.put('<');
  Out d;
  for (size_t i = 0; i < tn; ++i)
    d.put(t[i]);
  o.put(field(d, 0, ' ', pad));
  if (lit)
    o.put('>');
  std::string *r;
  if (append)
    r = &bwappend(s, f.view(), TextView{t.p, tn});
  else if (k & 1)
    r = &bwprint(s, f.view(), TextView{t.p, tn});
  else
    r = &bwprint_v(s, f.view(), std::forward_as_tuple(TextView{t.p, tn}));
  CHECK(r == &s);
  expect(TextView{s.data(), s.size()}, o, append ? "appended string" : "printed string");
  CHECK(s.c_str()[s.size()] == 0);
}
HARNESS(h_fs_bwprint) { str_case(false); }
HARNESS(h_fs_bwappend) { str_case(true); }
