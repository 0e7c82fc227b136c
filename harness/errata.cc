// Errata: notes, severities, codes, moves, sinks and the result pair, against a list of notes.
//@ entry h_errata_seq props=E01 shards=64 time=600 : every history of 3 (thorough 4) additions out of 11 kinds (text, format, code, severity, other Errata by reference and moved, severity assignment and update, code assignment) with arbitrary severities, filter, failure and default severity, texts of 0, 5, 40 and 700 bytes
//@ entry h_errata_make props=E01 shards=16 : every constructor with arbitrary severity, code number and text bytes
//@ entry h_errata_nest props=E01 shards=16 : notes of an Errata added to another, nested to depth 3, and to itself
//@ entry h_errata_print props=E01 shards=16 : printed form of 0..2 notes with and without text, severities in and out of the named ones, with default and other glue and indent texts
//@ entry h_errata_print_code props=E01 shards=4 : printed form with a code of a user category with any 8 bit number, and named error numbers, with and without severity, 0..2 notes of any 3 bytes
//@ entry h_errata_moves props=E02 shards=64 time=600 : every history of 6 (thorough 7) moves, clears, sinks, notes and destructions over two Errata with two sinks registered
//@ entry h_rv props=E02 shards=16 : result pair operations and moves with arbitrary values
//@ srcs: Errata MemArena RBTree bw_format TextView string_view_util ArenaWriter
#include <initializer_list>
#include <optional>
#include "vf.h"
#include "swoc/Errata.h"
#include "swoc/bwf_std.h"
using swoc::Errata;
using swoc::FixedBufferWriter;
using swoc::MemSpan;
using swoc::Rv;
using swoc::TextView;
using Severity = Errata::Severity;
using Code = Errata::code_type;

static bool same_text(TextView a, TextView b)
{
  if (a.size() != b.size())
    return false;
  bool s = true;
  for (size_t i = 0; i < a.size(); ++i)
    s = all(s, a[i] == b[i]);
  return s;
}
static void put_num(char *&p, unsigned n)
{
  if (n >= 100)
    *p++ = '0' + n / 100;
  if (n >= 10)
    *p++ = '0' + n / 10 % 10;
  *p++ = '0' + n % 10;
}
// A text the caller owns; the Errata must not refer to it later.
struct Text {
  char c[704];
  size_t n = 0;
  TextView view() const { return {c, n}; }
  void put(TextView v)
  {
    memcpy(c + n, v.data(), v.size());
    n += v.size();
  }
  void num(unsigned x)
  {
    char *p = c + n;
    put_num(p, x);
    n = p - c;
  }
};
static void any_text(Text &t, size_t n)
{
  t.n = n;
  memset(t.c, 'x', n);
  if (n) {
    t.c[0] = sym_u8("first"); // in particular a brace
    t.c[n - 1] = sym_u8("last");
  }
}
struct Note {
  Text text;
  bool has = false;
  unsigned sev = 0;
  unsigned level = 0;
};
struct Model {
  Note notes[12];
  unsigned n = 0;
  bool has = false; // has a severity
  unsigned sev = 0;
  Note &add() { return notes[n++]; }
  void update(unsigned s)
  {
    sev = all(has, sev >= s) ? sev : s;
    has = true;
  }
};
static void check(Errata const &e, Model const &m, unsigned dflt, unsigned fail, Code const &code)
{
  CHECKM(e.length() == m.n, "number of notes");
  CHECK(e.empty() == (m.n == 0));
  CHECKM(e.has_severity() == m.has, "severity set");
  unsigned s = m.has ? m.sev : dflt;
  CHECKM(unsigned(e.severity()) == s, "severity is the maximum of those set");
  CHECKM(e.code() == code, "code");
  unsigned i = 0;
  for (auto const &note : e) {
    CHECKM(i < m.n, "no more notes");
    CHECKM(same_text(note.text(), m.notes[i].text.view()), "text of the note, in order");
    CHECKM(note.has_severity() == m.notes[i].has, "severity of the note set");
    if (m.notes[i].has) {
      CHECKM(unsigned(note.severity()) == m.notes[i].sev, "severity of the note");
      CHECK(unsigned(note.severity(Severity(3))) == m.notes[i].sev);
    } else
      CHECK(unsigned(note.severity(Severity(3))) == 3);
    CHECKM(note.level() == m.notes[i].level, "level of the note");
    ++i;
  }
  CHECKM(i == m.n, "all notes");
  if (m.n) {
    CHECK(same_text(e.front().text(), m.notes[0].text.view()));
    CHECK(same_text(e.back().text(), m.notes[m.n - 1].text.view()));
  }
  if (m.n || m.has) {
    CHECKM(e.is_ok() == (s < fail), "ok exactly if the severity is less than the failure severity");
    CHECK(all(bool(e) == e.is_ok(), !e == !e.is_ok()));
  }
}
HARNESS(h_errata_seq)
{
  static const unsigned sizes[] = {0, 5, 40, 700}, picks[] = {0, 2, 9};
  unsigned dflt = sym_u8("default"), fail = sym_u8("failure"), filter = sym_u8("filter");
  Errata::DEFAULT_SEVERITY = Severity(dflt);
  Errata::FAILURE_SEVERITY = Severity(fail);
  Errata::FILTER_SEVERITY = Severity(filter);
  Errata e;
  static Model m;
  Code code;
  bool shown = false; // whether the code is visible
  CHECK(all(e.is_ok(), e.empty(), !e.has_severity(), e.length() == 0, e.begin() == e.end()));
  for (unsigned k = 0; k < BOUND(3, 4); ++k) {
    unsigned op = sym_split(11, "op");
    Text t;
    unsigned s = sym_u8("severity");
    bool pass = s >= filter;
    switch (op) {
    case 0: // plain text
      any_text(t, sizes[sym_split(4, "size")]);
      CHECK(&e.note(t.view()) == &e);
      m.add().text = t;
      break;
    case 1: // plain text with severity
      any_text(t, sizes[sym_split(4, "size")]);
      CHECK(&e.note(Severity(s), t.view()) == &e);
      m.update(s);
      if (pass) {
        auto &n = m.add();
        n.text = t;
        n.has = true;
        n.sev = s;
      }
      break;
    case 2: // format
    case 3: {
      any_text(t, sizes[sym_split(4, "size")]);
      unsigned x = picks[sym_pick(3, "number")];
      Text want;
      want.put("<");
      if (t.n < 700)
        want.put(t.view());
      else
        want.put(t.view().prefix(690));
      want.put("|");
      want.num(x);
      want.put(">");
      TextView arg = t.n < 700 ? t.view() : t.view().prefix(690);
      if (op == 2) {
        CHECK(&(x == 9 ? e.note_v("<{}|{}>", std::forward_as_tuple(arg, x)) : e.note("<{}|{}>", arg, x)) == &e);
        m.add().text = want;
      } else {
        CHECK(&(x == 9 ? e.note_v(Severity(s), "<{}|{}>", std::forward_as_tuple(arg, x)) : e.note(Severity(s), "<{}|{}>", arg, x)) == &e);
        m.update(s);
        if (pass) {
          auto &n = m.add();
          n.text = want;
          n.has = true;
          n.sev = s;
        }
      }
      break;
    }
    case 4: // the severity as text
      s = picks[sym_pick(3, "number")];
      pass = s >= filter;
      CHECK(&e.note(Severity(s)) == &e);
      m.update(s);
      if (pass) {
        auto &n = m.add();
        if (s < 3)
          n.text.put(Errata::SEVERITY_NAMES[s]);
        else
          n.text.num(s);
        n.has = true;
        n.sev = s;
      }
      break;
    case 5: // a code as text
      CHECK(&e.note(Code(EPERM, std::system_category())) == &e);
      m.add().text.put("EPERM [1]");
      break;
    case 6: // another Errata
    case 7: {
      unsigned before = m.n, len = sym_split(3, "others");
      Errata o;
      unsigned os = sym_u8("other_severity");
      bool set = sym_split(2, "other_set");
      if (set)
        o.assign(Severity(os));
      for (unsigned i = 0; i < len; ++i) {
        any_text(t, i ? 40 : 3);
        o.note(t.view());
        auto &n = m.add();
        n.text = t;
        n.level = 1;
      }
      (void)before;
      if (op == 6) {
        CHECK(&e.note(o) == &e);
        CHECK(o.length() == len);
      } else {
        CHECK(&e.note(std::move(o)) == &e);
        CHECKM(all(o.empty(), o.length() == 0, !o.has_severity()), "empty after the move");
      }
      if (set)
        m.update(os);
      break;
    }
    case 8:
      CHECK(&e.assign(Severity(s)) == &e);
      m.has = true;
      m.sev = s;
      break;
    case 9:
      CHECK(&e.update(Severity(s)) == &e);
      m.update(s);
      break;
    case 10: {
      code = Code(int(sym_u8("code")), std::system_category());
      CHECK(&e.assign(code) == &e);
      break;
    }
    }
  }
  (void)shown;
  check(e, m, dflt, fail, code);
  e.clear();
  CHECKM(all(e.is_ok(), e.empty(), !e.has_severity(), e.length() == 0, e.begin() == e.end()), "nothing after clear");
  CHECK(!e.code());
  REACH("done");
}
HARNESS(h_errata_make)
{
  unsigned dflt = sym_u8("default"), fail = sym_u8("failure"), filter = sym_u8("filter");
  Errata::DEFAULT_SEVERITY = Severity(dflt);
  Errata::FAILURE_SEVERITY = Severity(fail);
  Errata::FILTER_SEVERITY = Severity(filter);
  static Model m;
  Code code(int(sym_u8("code")), std::generic_category()), none;
  unsigned s = sym_u8("severity");
  Text t;
  any_text(t, 6);
  auto sev = [&](unsigned x) {
    m.has = true;
    m.sev = x;
  };
  switch (sym_split(14, "constructor")) {
  case 0: {
    Errata e(code);
    CHECKM(e.code() == code, "code");
    CHECK(all(e.empty(), !e.has_severity(), unsigned(e.severity()) == dflt));
    break;
  }
  case 1: {
    Errata e{Severity(s)};
    sev(s);
    check(e, m, dflt, fail, none);
    break;
  }
  case 2: {
    Errata e(code, Severity(s));
    sev(s);
    check(e, m, dflt, fail, code);
    break;
  }
  case 3: {
    Errata e(code, Severity(s), t.view());
    sev(s);
    m.add().text = t;
    check(e, m, dflt, fail, code);
    break;
  }
  case 4: {
    Errata e(Severity(s), t.view());
    sev(s);
    m.add().text = t;
    check(e, m, dflt, fail, none);
    break;
  }
  case 5: {
    Errata e(code, t.view());
    sev(dflt);
    m.add().text = t;
    check(e, m, dflt, fail, code);
    break;
  }
  case 6: {
    Errata e(t.view());
    sev(dflt);
    m.add().text = t;
    check(e, m, dflt, fail, none);
    break;
  }
  case 7: {
    Errata e(code, Severity(s), "{}+{}", t.view(), 17);
    sev(s);
    t.put("+17");
    m.add().text = t;
    check(e, m, dflt, fail, code);
    break;
  }
  case 8: {
    Errata e(code, "{}+{}", t.view(), 17);
    sev(dflt);
    t.put("+17");
    m.add().text = t;
    check(e, m, dflt, fail, code);
    break;
  }
  case 9: {
    Errata e(Severity(s), "{}+{}", t.view(), 17);
    sev(s);
    t.put("+17");
    m.add().text = t;
    check(e, m, dflt, fail, none);
    break;
  }
  case 10: {
    Errata e("{}+{}", t.view(), 17);
    sev(dflt);
    t.put("+17");
    m.add().text = t;
    check(e, m, dflt, fail, none);
    break;
  }
  case 11: {
    Errata e(Code(EPERM, std::system_category()), Errata::AUTO);
    m.add().text.put("EPERM [1]");
    check(e, m, dflt, fail, Code(EPERM, std::system_category()));
    break;
  }
  case 12: {
    s = sym_pick(4, "severity");
    Errata e(Severity(s), Errata::AUTO);
    sev(s);
    auto &n = m.add();
    if (s < 3)
      n.text.put(Errata::SEVERITY_NAMES[s]);
    else
      n.text.num(s);
    check(e, m, dflt, fail, none);
    break;
  }
  case 13: {
    Errata e(Code(EPERM, std::system_category()), Severity(1), Errata::AUTO);
    sev(1);
    auto &n = m.add();
    n.text.put("Warning: EPERM [1]");
    CHECK(&e.note(Code(ENOENT, std::system_category()), Severity(2)) == &e);
    m.update(2);
    if (2 >= filter) {
      auto &n2 = m.add();
      n2.text.put("Error: ENOENT [2]");
      n2.has = true;
      n2.sev = 2;
    }
    check(e, m, dflt, fail, Code(EPERM, std::system_category()));
    break;
  }
  }
  REACH("done");
}
HARNESS(h_errata_nest)
{
  static Model m;
  unsigned dflt = unsigned(Errata::DEFAULT_SEVERITY), fail = unsigned(Errata::FAILURE_SEVERITY);
  Errata a, b, c;
  Text t[5];
  for (auto &x : t)
    any_text(x, 30);
  unsigned sa = sym_u8("sa"), sb = sym_u8("sb"), sc = sym_u8("sc");
  unsigned way = sym_split(4, "way");
  a.note(Severity(sa), t[0].view()).note(t[1].view());
  b.note(t[2].view());
  if (way & 1)
    b.note(a);
  else
    b.note(std::move(a));
  b.note(Severity(sb), t[3].view());
  c.note(Severity(sc), t[4].view());
  if (way & 2)
    c.note(b);
  else
    c.note(std::move(b));
  b.clear();
  a.note("overwrites freed memory");
  unsigned order[] = {4, 2, 0, 1, 3}, level[] = {0, 1, 2, 2, 1};
  for (unsigned i = 0; i < 5; ++i) {
    auto &n = m.add();
    n.text = t[order[i]];
    n.level = level[i];
  }
  m.notes[0].has = m.notes[2].has = m.notes[4].has = true;
  m.notes[0].sev = sc;
  m.notes[2].sev = sa;
  m.notes[4].sev = sb;
  m.update(sa);
  m.update(sb);
  m.update(sc);
  check(c, m, dflt, fail, Code());
  // to itself: the notes it had, once more
  Errata s;
  s.note(t[0].view()).note(t[1].view());
  s.note(s);
  m.n = 0;
  for (unsigned i = 0; i < 4; ++i) {
    auto &n = m.add();
    n.text = t[i & 1];
    n.has = false;
    n.level = i / 2;
  }
  m.has = false;
  check(s, m, dflt, fail, Code());
  REACH("done");
}
// Prints a Errata with a code: the text of the code between the severity and the notes.
HARNESS(h_errata_print_code)
{
  static struct Category : std::error_category {
    const char *name() const noexcept override { return "cat"; }
    std::string message(int n) const override { return n == 1 ? "one" : "more"; }
  } cat;
  unsigned kind = sym_split(3, "kind"), notes = sym_pick(3, "notes");
  bool sev = sym_pick(2, "sev");
  int n    = kind == 0 ? int(sym_u8("n")) : kind == 1 ? EPERM : ENOENT;
  Code code = kind == 0 ? Code(n, cat) : Code(n, kind == 1 ? std::system_category() : std::generic_category());
  Text body, t;
  Errata e(code);
  if (sev) {
    e.assign(Severity(1));
    body.put(Errata::SEVERITY_NAMES[1]);
    body.put(": ");
  }
  bool shown = n != 0;
  if (shown) {
    body.put("[");
    body.put(std::string_view(kind == 0 ? n == 1 ? "one" : "more" : kind == 1 ? "EPERM" : "ENOENT"));
    body.put(" ");
    body.num(n);
    body.put("] ");
  }
  any_text(t, 3);
  for (unsigned i = 0; i < notes; ++i) {
    e.note(t.view());
    if (i)
      body.put("\n");
    body.put(t.view());
  }
  if (notes)
    body.put("\n");
  char buff[128];
  FixedBufferWriter w(buff, sizeof(buff));
  bwformat(w, swoc::bwf::Spec::DEFAULT, e);
  // The short name of a number is in lower or upper case.
  TextView got = w.view(), want = body.view();
  bool same    = got.size() == want.size();
  for (size_t i = 0; i < want.size() && i < got.size(); ++i)
    same = all(same, any(got[i] == want[i], kind && all(got[i] >= 'a', got[i] <= 'z', got[i] - 32 == want[i])));
  CHECKM(same, "printed text");
  REACH("done");
}
// What an Errata without code prints as.
HARNESS(h_errata_print)
{
  static const unsigned picks[] = {0, 1, 2, 3, 200};
  Errata e;
  Text want;
  unsigned n = sym_split(3, "notes");
  int sev = int(sym_split(6, "severity")) - 1;
  TextView glue = "\n", sglue = ": ", asglue = ": ", indent = "  ";
  bool final_glue = true;
  auto put_sev = [&](unsigned s) {
    if (s < 3)
      want.put(Errata::SEVERITY_NAMES[s]);
    else
      want.num(s);
  };
  unsigned style = sym_split(3, "style");
  unsigned top = 0;
  if (style) {
    Text tmp; // the texts are copied
    tmp.put(", ");
    final_glue = style == 2;
    if (final_glue)
      CHECK(&e.assign_annotation_glue_text(tmp.view(), true) == &e);
    else
      e.assign_annotation_glue_text(tmp.view());
    tmp.c[0] = '-';
    tmp.c[1] = '>';
    CHECK(&e.assign_severity_glue_text(tmp.view()) == &e);
    tmp.c[0] = tmp.c[1] = '=';
    CHECK(&e.assign_annotation_severity_glue_text(tmp.view()) == &e);
    tmp.c[0] = tmp.c[1] = '.';
    CHECK(&e.assign_indent_text(tmp.view()) == &e);
    tmp.c[0] = tmp.c[1] = '!';
    glue = ", ";
    sglue = "->";
    asglue = "==";
    indent = "..";
  }
  CHECK(all(same_text(e.annotation_glue_text(), glue), same_text(e.severity_glue_text(), sglue), same_text(e.annotation_severity_glue_text(), asglue), same_text(e.indent_text(), indent)));
  Text body;
  bool has = false;
  bool any_printed = false;
  unsigned max = 0;
  std::swap(want, body);
  for (unsigned i = 0; i < n; ++i) {
    Text t;
    bool some = sym_pick(2, "some"); // a note without text is not printed
    if (some)
      any_text(t, 4);
    unsigned kind = sym_split(3, "kind");
    if (any_printed && some)
      want.put(glue);
    any_printed = any_printed || some;
    if (kind == 0) {
      e.note(t.view());
    } else if (kind == 1) {
      unsigned s = picks[sym_split(5, "note_severity")];
      e.note(Severity(s), t.view());
      if (some) {
        put_sev(s);
        want.put(asglue);
      }
      max = has && max > s ? max : s;
      has = true;
    } else {
      Errata o;
      o.note(t.view());
      e.note(o);
      if (some)
        want.put(indent);
    }
    want.put(t.view());
  }
  if (any_printed && final_glue)
    want.put(glue);
  std::swap(want, body);
  if (sev >= 0) {
    e.assign(Severity(picks[sev]));
    has = true;
    max = picks[sev];
  }
  if (has) {
    put_sev(max);
    want.put(sglue);
  }
  want.put(body.view());
  (void)top;
  char buff[128];
  FixedBufferWriter w(buff, sizeof(buff));
  bwformat(w, swoc::bwf::Spec::DEFAULT, e);
  CHECKM(same_text(TextView(w.view()), want.view()), "printed text");
  REACH("done");
}
// ---- moves and sinks
static struct {
  unsigned calls = 0, length = 0;
  char tag = 0;
} g_sink[2];
template <unsigned N> static void sink(Errata const &e)
{
  ++g_sink[N].calls;
  g_sink[N].length = e.length();
  g_sink[N].tag = e.length() ? e.front().text()[0] : 0;
}
struct Slot {
  char text[8];
  unsigned n = 0;
};
static void check_slot(Errata const &e, Slot const &s)
{
  CHECKM(e.length() == s.n, "number of notes");
  CHECK(e.empty() == (s.n == 0));
  unsigned i = 0;
  for (auto const &note : e) {
    CHECKM(i < s.n && note.text().size() == 3 && note.text()[0] == s.text[i] && note.text()[2] == s.text[i], "the notes, in order");
    ++i;
  }
  CHECK(i == s.n);
  if (s.n == 0)
    CHECKM(all(e.is_ok(), !e.has_severity()), "an empty Errata is ok");
}
static void reset(Slot &s) { s.n = 0; }
HARNESS(h_errata_moves)
{
  uint64_t live = 0;
  Errata::register_sink([](Errata const &e) -> void { sink<0>(e); });
  struct S : Errata::Sink {
    void operator()(Errata const &e) const override { sink<1>(e); }
  };
  Errata::register_sink(Errata::Sink::Handle(new S));
  live = sym_heap_live();
  Slot ms[2];
  unsigned calls = 0;
  bool unsure = false;
  {
    Errata es[2];
    char tag = 'a';
    for (unsigned k = 0; k < BOUND(6, 7); ++k) {
      unsigned x = sym_split(k ? 2 : 1, "which");
      Errata &a = es[x], &b = es[1 - x];
      Slot &ma = ms[x], &mb = ms[1 - x];
      unsigned op = sym_split(k ? 7 : 1, "op");
      switch (op) {
      case 0: {
        char c[3] = {tag, '-', tag};
        a.note(TextView(c, 3));
        ma.text[ma.n++] = tag++;
        c[0] = c[2] = '?';
        break;
      }
      case 1: // a = move(b)
        if (ma.n)
          unsure = true; // what the sinks get to know of overwritten notes is not specified
        CHECK(&(a = std::move(b)) == &a);
        ma = mb;
        reset(mb);
        break;
      case 2: { // through a third one
        Errata c(std::move(a));
        check_slot(a, Slot());
        check_slot(c, ma);
        if (sym_split(2, "back"))
          a = std::move(c);
        else if (ma.n) {
          ++calls; // destroyed with its notes
          reset(ma);
        }
        break;
      }
      case 3:
        CHECK(&a.clear() == &a);
        reset(ma);
        break;
      case 4:
        CHECK(&a.sink() == &a);
        if (ma.n)
          ++calls;
        reset(ma);
        break;
      case 5: // a takes the notes of b
        if (ma.n + mb.n > 6)
          return;
        CHECK(&a.note(std::move(b)) == &a);
        for (unsigned i = 0; i < mb.n; ++i)
          ma.text[ma.n++] = mb.text[i];
        reset(mb);
        break;
      case 6: { // to itself
        Errata &same = a;
        CHECK(&(a = std::move(same)) == &a);
        break;
      }
      }
      check_slot(a, ma);
      check_slot(b, mb);
      if (op == 4 && !unsure && calls) {
        CHECKM(all(g_sink[0].calls == calls, g_sink[1].calls == calls), "each sink is called once per sunk Errata");
      }
    }
    if (ms[0].n)
      ++calls;
    if (ms[1].n)
      ++calls;
  }
  if (!unsure)
    CHECKM(all(g_sink[0].calls == calls, g_sink[1].calls == calls), "each sink is called once for each Errata that ends with notes");
  unsigned last = ms[0].n ? 0 : 1; // destroyed last
  if (ms[last].n)
    for (auto &g : g_sink)
      CHECKM(all(g.length == ms[last].n, g.tag == ms[last].text[0]), "the sink is given the notes");
  CHECKM(sym_heap_live() == live, "all memory is released");
  REACH("done");
}
struct Obj {
  static int live;
  unsigned v;
  explicit Obj(unsigned x = 0) : v(x) { ++live; }
  Obj(Obj const &o) : v(o.v) { ++live; }
  Obj(Obj &&o) : v(o.v)
  {
    o.v = 0;
    ++live;
  }
  Obj &operator=(Obj const &) = default;
  Obj &operator=(Obj &&o)
  {
    v = o.v;
    if (&o != this)
      o.v = 0;
    return *this;
  }
  ~Obj() { --live; }
};
int Obj::live;
HARNESS(h_rv)
{
  unsigned v = sym_u32("v"), u = sym_u32("u"), s = sym_u8("severity");
  ASSUME(v != 0 && u != 0);
  bool ok = s < unsigned(Errata::FAILURE_SEVERITY);
  { // what formatting sets up once
    Errata warm;
    warm.note(Code(EPERM, std::system_category()));
  }
  uint64_t live = sym_heap_live();
  {
    switch (sym_split(7, "what")) {
    case 6: {
      Rv<unsigned> r(v);
      Code c(EPERM, std::system_category());
      CHECK(&r.note(c, Severity(s)) == &r);
      CHECK(all(r.errata().length() == 1, unsigned(r.errata().severity()) == s, r.is_ok() == ok, r.result() == v));
      auto ends = [](TextView t) { return t.size() > 11 && same_text(t.suffix(11), ": EPERM [1]"); };
      CHECK(ends(r.errata().back().text()));
      CHECK(unsigned(r.errata().back().severity()) == s);
      CHECK(&r.note(Severity(s), "{}-{}", u & 1, "x") == &r);
      CHECK(same_text(r.errata().back().text(), u & 1 ? "1-x" : "0-x"));
      Errata e;
      e.note(c, Severity(s));
      CHECK(all(e.length() == 1, unsigned(e.severity()) == s, unsigned(e.back().severity()) == s, ends(e.back().text())));
      break;
    }
    case 0: {
      Rv<unsigned> r = v;
      unsigned x = r;
      CHECK(all(x == v, r.result() == v, r.is_ok(), r.errata().empty()));
      CHECK((r = u) == u);
      CHECK(r.result() == u);
      CHECK(&r.note(Severity(s), "first") == &r);
      CHECK(all(r.result() == u, r.is_ok() == ok, r.errata().length() == 1));
      CHECK(&r.note("{} and {}", 1, 2) == &r);
      CHECK(&r.note("third") == &r);
      CHECK(&r.note(Code(EPERM, std::system_category())) == &r);
      CHECK(r.errata().length() == 4);
      CHECK(same_text(r.errata().back().text(), "EPERM [1]"));
      auto &[res, err] = r;
      CHECK(all(&res == &r.result(), &err == &r.errata()));
      res = v;
      CHECK(r.result() == v);
      CHECK(&r.clear() == &r);
      CHECK(all(r.is_ok(), r.errata().empty(), r.result() == v));
      CHECK(&r.assign(u) == &r);
      CHECK(r.result() == u);
      break;
    }
    case 1: {
      Rv<unsigned> r(v, Errata(Severity(s), "text"));
      CHECK(all(r.result() == v, r.is_ok() == ok, r.errata().length() == 1));
      Rv<unsigned> q(std::move(r));
      CHECK(all(q.result() == v, q.is_ok() == ok, q.errata().length() == 1, r.errata().empty()));
      r = Errata("other");
      CHECK(same_text(r.errata().front().text(), "other"));
      q = std::move(r);
      CHECK(all(same_text(q.errata().front().text(), "other"), q.errata().length() == 1, r.errata().empty(), q.result() == v));
      Rv<unsigned> const &c = q;
      auto const &[res, err] = c;
      CHECK(all(res == v, &err == &q.errata()));
      break;
    }
    case 2: {
      Rv<Obj> r(Obj(v), Errata(Severity(s), "text"));
      CHECK(all(r.result().v == v, r.is_ok() == ok));
      Obj o = std::move(r.result());
      CHECK(all(o.v == v, r.result().v == 0, r.errata().length() == 1));
      r = std::move(o);
      CHECK(all(r.result().v == v, o.v == 0));
      Rv<Obj> q(std::move(r));
      CHECK(all(q.result().v == v, r.result().v == 0, q.errata().length() == 1, r.errata().empty()));
      Obj p(u);
      CHECK(&q.assign(p) == &q);
      CHECK(all(q.result().v == u, p.v == u));
      CHECK(&q.assign(std::move(p)) == &q);
      CHECK(all(q.result().v == u, p.v == 0));
      Obj const z(v);
      Rv<Obj> k(z), k2(z, Errata("t"));
      CHECK(all(k.result().v == v, k.is_ok(), k2.result().v == v, k2.errata().length() == 1));
      break;
    }
    case 3: {
      Rv<unsigned> r(v);
      Errata e(Severity(s), "one"), f(Severity(1), "two");
      CHECK(&r.note(e) == &r);
      CHECK(all(r.errata().length() == 1, e.length() == 1, unsigned(r.errata().severity()) == s));
      CHECK(&r.note(std::move(f)) == &r);
      CHECK(all(r.errata().length() == 2, f.empty()));
      CHECK(unsigned(r.errata().severity()) == (s > 1 ? s : 1));
      Errata &x = r;
      CHECK(&x == &r.errata());
      break;
    }
    case 4: {
      auto r = swoc::MakeRv(Obj(v), Errata(Severity(s), "text"));
      CHECK(all(r.result().v == v, r.errata().length() == 1));
      auto f = [&]() -> Rv<Obj> { return {Obj(u), Errata("x")}; };
      Rv<Obj> q = f();
      CHECK(all(q.result().v == u, q.errata().length() == 1));
      auto &&[o, e] = f();
      CHECK(all(o.v == u, e.length() == 1));
      break;
    }
    case 5: {
      Rv<Obj> r{Errata(Severity(s), "text")};
      CHECK(all(r.errata().length() == 1, r.is_ok() == ok));
      Errata took = std::move(r.errata());
      CHECK(all(r.errata().empty(), took.length() == 1));
      break;
    }
    }
  }
  CHECKM(Obj::live == 0, "all results are destroyed once");
  CHECKM(sym_heap_live() == live, "all memory is released");
  REACH("done");
}
