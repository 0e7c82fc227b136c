// Formatting of times, system errors, exceptions, scaled integers, writers; custom extractors that capture arguments.
//@ entry h_fm_date props=B05,B02 shards=8 : dates whose time text has 0..4 (thorough 6) arbitrary characters, GMT, explicit GMT and local, in fields of width none, 3, 8, as number, into buffers of 0..12 bytes and with clipped maximum width
//@ entry h_fm_errno props=B05 shards=4 : every named errno with the description of the system (0..3 arbitrary characters), the short name, the long one or both, with and without number
//@ entry h_fm_error_code props=B05 shards=4 : error codes with every value of the system and generic category, and of a custom category with 0..3 arbitrary characters of message, with and without number
//@ entry h_fm_misc props=B05 shards=8 : exceptions with 0..3 arbitrary characters of explanation, every time point and duration, writers with 0..3 arbitrary bytes, memory spans of any size and address, scaled integers with and without label, hex dumps in fields
//@ entry h_fm_capture props=B04 shards=8 : a custom extractor that captures any of the arguments as the width or precision of the next, all widths to 9, values of 16 bits, all orders; extractors that do not support capture
#include "vf.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_std.h"
#include "swoc/Scalar.h"
#include <cerrno>
#include <ctime>
#include <string>
#include <any>
using namespace swoc;
using bwf::Spec;

// ---- the system
static Block *g_time, *g_strerror;
static time_t g_asked;
static unsigned g_gmt, g_local;
static int g_asked_errno;
static char const *g_fmt;
extern "C" {
struct tm *gmtime_r(time_t const *t, struct tm *r) noexcept
{
  g_asked = *t;
  ++g_gmt;
  r->tm_year = 17;
  return r;
}
struct tm *localtime_r(time_t const *t, struct tm *r) noexcept
{
  g_asked = *t;
  ++g_local;
  r->tm_year = 17;
  return r;
}
size_t strftime(char *s, size_t max, char const *fmt, struct tm const *t) noexcept
{
  g_fmt = fmt;
  CHECKM(t->tm_year == 17, "the time is broken down before it is formatted");
  size_t n = g_time->n;
  if (n + 1 > max) { // no room: the contents are unspecified
    for (size_t i = 0; i < max; ++i)
      s[i] = '?';
    return 0;
  }
  for (size_t i = 0; i < n; ++i)
    s[i] = g_time->p[i];
  s[n] = 0;
  return n;
}
char *strerror(int e) noexcept
{
  g_asked_errno = e;
  return g_strerror->p;
}
}
struct Out {
  uint8_t b[96];
  size_t n = 0;
  void put(uint8_t c) { b[n++] = c; }
  void fill(uint8_t c, size_t k)
  {
    while (k--)
      put(c);
  }
  void text(char const *s)
  {
    while (*s)
      put(*s++);
  }
  void block(Block const &s, size_t n)
  {
    for (size_t i = 0; i < n; ++i)
      put(s.p[i]);
  }
};
static void expect(TextView v, Out const &o, char const *m)
{
  sym_check(v.size() == o.n, m);
  bool ok = true;
  for (size_t i = 0; i < o.n && i < v.size(); ++i)
    ok = all(ok, uint8_t(v.data()[i]) == o.b[i]);
  sym_check(ok, m);
}
static void cstring(Block &z, size_t n) // z has room for n characters and the terminator
{
  for (size_t i = 0; i < n; ++i)
    ASSUME(z.p[i] != 0);
  z.p[n] = 0;
}
HARNESS(h_fm_date)
{
  static char const *const FMT[] = {"<{}>", "<{:>8}>", "<{:*^3}>", "<{::gmt}>", "<{::local}>", "<{:<8:local}>", "<{:,2}>", "<{:d}>"};
  unsigned k = sym_split(8, "format");
  size_t n = sym_pick(BOUND(5, 7), "n"), cap = sym_pick(13, "capacity");
  time_t when = time_t(sym_u64("time"));
  Block text(n, "text");
  g_time = &text;
  Block buf(cap);
  FixedBufferWriter w(buf.p, cap);
  bool plain = sym_pick(2, "own");
  static char const OWN[] = "%Y";
  w.print(TextView(FMT[k], strlen(FMT[k])), plain ? bwf::Date(when) : bwf::Date(when, std::string_view(OWN, 2)));
  Out o;
  o.put('<');
  if (k == 7) {
    LocalBufferWriter<32> num;
    num.print("{}", when);
    for (char c : TextView(num.view()))
      o.put(c);
  } else {
    CHECKM(g_asked == when, "the time that is formatted");
    bool local = k == 4 || k == 5;
    CHECKM((g_local > 0) == local && (g_gmt > 0) == !local, "local time or GMT as specified");
    CHECKM(g_fmt == (plain ? bwf::Date::DEFAULT_FORMAT.data() : OWN), "the time format");
    size_t width = k == 1 || k == 5 ? 8 : k == 2 ? 3 : 0, pad = n < width ? width - n : 0;
    size_t left = k == 1 ? pad : k == 2 ? pad / 2 : 0;
    o.fill(k == 2 ? '*' : ' ', left);
    o.block(text, k == 6 && n > 2 ? 2 : n);
    o.fill(k == 2 ? '*' : ' ', pad - left);
  }
  o.put('>');
  CHECKM(w.extent() == o.n, "the complete output is counted");
  o.n = o.n < cap ? o.n : cap;
  expect(w.view(), o, "date");
  REACH("done");
}
static const struct {
  int e;
  char const *n;
} ERR[] = {{EPERM, "EPERM"}, {ENOENT, "ENOENT"}, {EINTR, "EINTR"}, {EACCES, "EACCES"}, {ERANGE, "ERANGE"}, {ENOSYS, "ENOSYS"}, {ETIMEDOUT, "ETIMEDOUT"}, {EHWPOISON, "EHWPOISON"}};
HARNESS(h_fm_errno)
{
  static const struct {
    char const *fmt;
    bool s, l, num;
  } K[]      = {{"{}", 1, 1, 1}, {"{:s}", 1, 1, 0}, {"{:s:sl}", 1, 1, 0}, {"{:s:s}", 1, 0, 0}, {"{:s:l}", 0, 1, 0}, {"{::s}", 1, 0, 1}, {"{::l}", 0, 1, 1}, {"{:S}", 1, 1, 0}};
  auto &k    = K[sym_split(8, "format")];
  auto &e    = ERR[sym_pick(8, "errno")];
  size_t n   = sym_pick(4, "n");
  Block text(n + 1, "text");
  cstring(text, n);
  g_strerror = &text;
  LocalBufferWriter<64> w;
  if (sym_pick(2, "current")) {
    errno = e.e;
    bwf::Errno err;
    errno = 0;
    w.print(TextView(k.fmt, strlen(k.fmt)), err);
  } else
    w.print(TextView(k.fmt, strlen(k.fmt)), bwf::Errno(e.e));
  Out o;
  if (k.s)
    o.text(e.n);
  if (k.s && k.l)
    o.text(": ");
  if (k.l) {
    o.block(text, n);
    CHECKM(g_asked_errno == e.e, "the description of the error");
  }
  if (k.num) {
    LocalBufferWriter<16> num;
    num.print(" [{}]", e.e);
    for (char c : TextView(num.view()))
      o.put(c);
  }
  expect(w.view(), o, "errno text");
  REACH("done");
}
struct MyCategory : public std::error_category {
  Block *text = nullptr;
  size_t n    = 0;
  char const *name() const noexcept override { return "mine"; }
  std::string message(int) const override { return std::string(text->p, n); }
};
HARNESS(h_fm_error_code)
{
  unsigned k  = sym_split(4, "format");
  unsigned kind = sym_pick(3, "category");
  LocalBufferWriter<64> w, num;
  Out o;
  Block text(3, "text");
  MyCategory mine;
  mine.text = &text;
  int v;
  if (kind < 2) {
    auto &e = ERR[sym_pick(8, "errno")];
    v       = e.e;
    for (char const *c = e.n; *c; ++c) // formatted as text, of which the type s is the lower case form
      o.put(k == 1 && *c >= 'A' && *c <= 'Z' ? *c + 32 : *c);
  } else {
    v      = int(sym_u32("value"));
    mine.n = sym_pick(4, "n");
    o.block(text, mine.n);
  }
  std::error_code ec(v, kind == 0 ? std::system_category() : kind == 1 ? std::generic_category() : static_cast<std::error_category const &>(mine));
  static char const *const FMT[] = {"{}", "{:s}", "{:S}", "{:d}"};
  w.print(TextView(FMT[k], strlen(FMT[k])), ec);
  num.print(k == 3 ? TextView("{}") : TextView(" [{}]"), v);
  if (k == 3)
    o.n = 0;
  if (k == 0 || k == 3)
    for (char c : TextView(num.view()))
      o.put(c);
  expect(w.view(), o, "error code");
  REACH("done");
}
struct MyError : public std::exception {
  char const *text;
  char const *what() const noexcept override { return text; }
};
struct Labelled {
  static constexpr std::string_view label{"KB"};
};
HARNESS(h_fm_misc)
{
  unsigned k = sym_split(8, "kind");
  LocalBufferWriter<96> w, w2;
  size_t n = sym_pick(4, "n");
  Block text(n + 1, "text");
  switch (k) {
  case 0: {
    cstring(text, n);
    MyError e;
    e.text = text.p;
    w.print("<{}>", static_cast<std::exception const &>(e));
    Out o;
    o.text("<Exception - ");
    o.block(text, n);
    o.put('>');
    expect(w.view(), o, "exception");
    break;
  }
  case 1: { // times
    int64_t t = int64_t(sym_u64("ticks"));
    using Clock = std::chrono::system_clock;
    w.print("{:>5}", std::chrono::time_point<Clock, std::chrono::milliseconds>(std::chrono::milliseconds(t)));
    w2.print("{:>5}", t);
    CHECKM(w.view() == w2.view(), "a time point is the number of ticks");
    break;
  }
  case 2: { // writers
    LocalBufferWriter<8> src;
    src.write(text.p, n);
    w.print("<{:>2}{}>", src, src);
    Out o;
    o.put('<');
    o.fill(' ', n < 2 ? 2 - n : 0);
    o.block(text, n);
    o.block(text, n);
    o.put('>');
    expect(w.view(), o, "contents of the other writer");
    LocalBufferWriter<96> w3;
    w3 << 'x' << src << std::string_view(text.p, n) << n;
    w2.print("x{}{}{}", src, std::string_view(text.p, n), n);
    CHECKM(w3.view() == w2.view(), "stream operator");
    break;
  }
  case 3: { // memory span
    size_t size = sym_u16("size");
    w.print("{}", MemSpan<void const>{text.p, size});
    w2.print("{:#x}@{:p}", size, static_cast<void const *>(text.p));
    CHECKM(w.view() == w2.view(), "a memory span is size and address");
    break;
  }
  case 4: { // scaled integers
    int64_t c = int16_t(sym_u16("count"));
    using L   = Scalar<1024, int64_t, Labelled>;
    using P   = Scalar<1024, int64_t>;
    w.print("{} {:d} {:x} {}", L(c), L(c), L(c), P(c));
    w2.print("{}KB {:d} {:x} {}", c * 1024, c * 1024, c * 1024, c * 1024);
    CHECKM(w.view() == w2.view(), "a scaled integer is its value, with the label unless a numeric type is specified");
    break;
  }
  case 5: { // hex dump in a field
    Out o;
    w.print("<{:*>9x}>", bwf::HexDump(text.p, n));
    o.put('<');
    o.fill('*', 9 - 2 * n);
    for (size_t i = 0; i < n; ++i)
      for (unsigned d : {uint8_t(text.p[i]) >> 4, uint8_t(text.p[i]) & 15})
        o.put(d + (d < 10 ? '0' : 'a' - 10));
    o.put('>');
    expect(w.view(), o, "hex dump in a field");
    break;
  }
  case 6: { // arguments in a tuple, prepared formats
    unsigned v = sym_u16("v");
    std::string_view s(text.p, n);
    bwf::Format f("{1}-{0}={1:>3}");
    auto args = std::make_tuple(v, s);
    w.print("{1}-{0}={1:>3}", v, s);
    FixedBufferWriter &fw = w2;
    CHECK(&fw.print_v(f, args) == &fw);
    CHECKM(w.view() == w2.view(), "prepared format and arguments in a tuple");
    LocalBufferWriter<96> w3, w4;
    w3.print_v(TextView("{1}-{0}={1:>3}"), args);
    CHECKM(w.view() == w3.view(), "arguments in a tuple");
    w4.print(f, v, s);
    CHECKM(w.view() == w4.view(), "prepared format");
    break;
  }
  case 7: { // nested
    unsigned v = sym_u16("v");
    std::string_view s(text.p, n);
    w.print("<{:*>9}>", bwf::SubText("{}{}", std::make_tuple(v, s)));
    LocalBufferWriter<32> in;
    in.print("{}{}", v, s);
    w2.print("<{:*>9}>", in.view());
    CHECKM(w.view() == w2.view(), "nested text in a field");
    break;
  }
  }
  REACH("done");
}
// An extractor: a list of elements instead of a format text.
struct Element {
  enum { WIDTH, PREC, PRINT, TEXT } what;
  int idx; // of the argument, -1: the next
};
struct Elements {
  Element const *e;
  unsigned n;
  Spec saved;
  explicit operator bool() const { return n > 0; }
  bool operator()(std::string_view &literal, Spec &spec)
  {
    Element x = *e++;
    --n;
    if (x.what == Element::TEXT) {
      literal = "~";
      return false;
    }
    if (x.what == Element::PRINT) {
      spec  = saved;
      saved = Spec();
    } else {
      spec._type = Spec::CAPTURE_TYPE;
      spec._ext  = x.what == Element::WIDTH ? "w" : "p";
    }
    spec._idx = x.idx;
    if (x.idx >= 0)
      spec._name = "#";
    return true;
  }
  void capture(BufferWriter &, Spec const &spec, std::any const &value)
  {
    unsigned v = 0;
    bool known = true;
    if (auto p = std::any_cast<unsigned *>(&value))
      v = **p;
    else if (auto q = std::any_cast<unsigned const *>(&value))
      v = **q;
    else
      known = false;
    CHECKM(known, "the captured argument is a pointer to the argument");
    (spec._ext == "w" ? saved._min : reinterpret_cast<unsigned &>(saved._prec)) = v;
  }
};
struct Plain { // does not support capture
  unsigned n = 1;
  explicit operator bool() const { return n > 0; }
  bool operator()(std::string_view &, Spec &spec)
  {
    --n;
    spec._type = Spec::CAPTURE_TYPE;
    return true;
  }
};
HARNESS(h_fm_capture)
{
  unsigned k = sym_split(5, "case");
  unsigned width = sym_pick(10, "width"), prec = sym_pick(4, "precision"), v = sym_u16("v");
  Block text(3, "text");
  std::string_view s(text.p, 3);
  LocalBufferWriter<64> w, w2;
  auto print = [&](auto const &e, auto &&...args) {
    Elements ex{e, unsigned(std::size(e)), Spec()};
    w.print_nfv(bwf::Global_Names.bind(), ex, bwf::ArgTuple{std::forward_as_tuple(args...)});
  };
  char fmt[] = {'{', ':', char('0' + width), '.', char('0' + prec), '}'}; // the same as text
  TextView both(fmt, 6);
  char fmt_w[] = {'{', ':', char('0' + width), '}'};
  TextView field(fmt_w, 4);
  switch (k) {
  case 0: {
    static const Element E[] = {{Element::WIDTH, -1}, {Element::PRINT, -1}, {Element::TEXT, 0}};
    print(E, width, v);
    w2.print(field, v).write('~');
    break;
  }
  case 1: {
    static const Element E[] = {{Element::TEXT, 0}, {Element::WIDTH, 1}, {Element::PRINT, 0}, {Element::PRINT, 0}};
    print(E, v, width);
    w2.write('~').print(field, v).print("{}", v);
    break;
  }
  case 2: {
    static const Element E[] = {{Element::WIDTH, -1}, {Element::PREC, -1}, {Element::PRINT, -1}, {Element::TEXT, 0}, {Element::PRINT, -1}};
    print(E, width, prec, s, v);
    w2.print(both, s).write('~').print("{}", v);
    break;
  }
  case 3: {
    static const Element E[] = {{Element::PREC, 2}, {Element::WIDTH, 1}, {Element::PRINT, 0}, {Element::WIDTH, 1}, {Element::PRINT, 1}};
    unsigned const cw = width;
    print(E, s, cw, prec);
    w2.print(both, s).print(field, width);
    break;
  }
  case 4: {
    bool threw = false;
    try {
      w.print_nfv(bwf::Global_Names.bind(), Plain(), bwf::ArgTuple{std::forward_as_tuple(v)});
    } catch (std::runtime_error &) {
      threw = true;
    }
    CHECKM(threw, "capture without support for it is refused");
    REACH("refused");
    return;
  }
  }
  CHECKM(w.view() == w2.view(), "captured arguments become width and precision of the next element");
  REACH("done");
}
