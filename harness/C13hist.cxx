// Whole histories of debug output, executed by the real code and compared with what the properties C13, C14, C18
// and C19 say must come out.  A bounded native check; it supplies the failing inputs for the contracts in C13.cxx.
#include "src/debug.cxx"
#include "libcwd/strerrno.h"
#include "vf.h"
#include <cstring>
#include <string>
#include <vector>
using namespace libcwd;
using libcwd::_private_::ThreadSpecificData;
using libcwd::_private_::LockInterfaceBase;

#ifndef VF_NATIVE
VF_CONTRACT(history) { }
#else
namespace {

struct FakeLock : LockInterfaceBase
{
  int held = 0;
  void get() { vf_assert(!held, "the lock is not requested while it is held"); held = 1; }
  int try_lock() override { get(); return 1; }
  void lock() override { get(); }
  void unlock() override { vf_assert(held, "only a lock that is held is released"); held = 0; }
};
FakeLock the_lock;
bool locked;

// The device: every access is checked, and leaves a different errno behind.
struct Device : std::streambuf
{
  std::string text;
  size_t flushed = 0;
  void access()
  {
    vf_assert(!locked || the_lock.held, "the stream is used with its lock held");
    errno = 1 + (text.size() * 7) % 30;
  }
  int overflow(int c) override { access(); text += (char)c; return (unsigned char)c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { access(); text.append(s, n); return n; }
  int sync() override { access(); flushed = text.size(); return 0; }
};

struct Model
{
  struct Message { std::string prefix, pending; bool cf, interruptible, child, flush; control_flag_t cerr; };
  std::vector<Message> open;
  std::string out, err;
  std::string margin, marker, on, off;
  unsigned indent;
  size_t label_len;
  std::string& to(control_flag_t cerr) { return cerr ? err : out; }
  static std::string blank(std::string const& s, bool b) { return b ? std::string(s.size(), ' ') : s; }
  void start(control_flag_t& mask, std::string label)
  {
    if (!open.empty())
    {
      Message& m = open.back();
      if (m.cf && m.interruptible)
      {
        to(m.cerr) += m.pending + off + "<unfinished>\n";
        m.pending = m.prefix + off + "<continued>" + on + " ";
        m.interruptible = false;
      }
      if (!m.child) { m.child = true; indent += 4; mask |= m.cerr; }
    }
    Message m;
    m.cf = mask & continued_cf_maskbit;
    m.interruptible = true;
    m.child = false;
    m.flush = mask & flush_cf;
    m.cerr = mask & cerr_cf;
    m.prefix = on;
    if (!(mask & noprefix_cf))
    {
      m.prefix += blank(margin, mask & blank_margin_cf);
      if (!(mask & nolabel_cf))
        m.prefix += blank(label, mask & blank_label_cf) + blank(marker, mask & blank_marker_cf) + std::string(indent, ' ');
    }
    m.pending = m.prefix;
    open.push_back(m);
  }
  void resume(control_flag_t mask) { open.back().flush = mask & flush_cf; }
  // The end of a statement that does not end the message.
  void pause(bool resumed)
  {
    Message& m = open.back();
    if (resumed) m.interruptible = true;
    if (m.flush)
    {
      to(m.cerr) += m.pending;
      m.pending.clear();
      m.interruptible = true;
    }
  }
  void finish(control_flag_t mask, int e, bool interactive)
  {
    Message m = open.back();
    open.pop_back();
    if (mask & error_cf)
      m.pending += std::string(": ") + strerrno(e) + " (" + std::strerror(e) + ")";
    if (!(mask & nonewline_cf))
      m.pending += off + "\n";
    if (mask & wait_cf)
      m.pending += "(type return)";
    to(m.cerr) += m.pending;
    if (m.child) indent -= 4;
    if (!open.empty())
    {
      open.back().interruptible = false;
      if (m.flush) open.back().flush = true;
    }
  }
};

char const* const labels[] = {"DEBUG   ", "NOTICE  ", "A       ", "LONGER__"};
char const* const margins[] = {"", "> ", "a long margin here "};
char const* const markers[] = {": ", "", "|=>"};
char const* const ons[] = {"", "\x1b[31m", "+"};
char const* const offs[] = {"", "\x1b[0m", "-"};
control_flag_t const flags[] = {nonewline_cf, noprefix_cf, nolabel_cf, blank_margin_cf, blank_label_cf, blank_marker_cf, cerr_cf, flush_cf, error_cf, wait_cf};

int const errnos[] = {0, 1, 2, 13, 22, 42, 110, 133, 200};

struct History
{
  ThreadSpecificData& t;
  DebugObject& o;
  DebugObject_ThreadSpecificData& d;
  Model m;
  int budget = 24;
  Device dev, cerr_dev;
  std::stringbuf in;
  int err;
  History() : t(ThreadSpecificData::instance()), o(libcw_do), d(*t.debug_object_array[libcw_do.index_]) { }

  void set(DebugString& ds, std::string& model, char const* s) { ds.assign(s, std::strlen(s)); model = s; }
  control_flag_t pick()
  {
    control_flag_t f = 0;
    int n = vf_u8("number of flags") & 3;
    for (int i = 0; i < n; ++i) f |= flags[vf_u8("flag") % 10];
    return f;
  }
  int pick_errno() { return errnos[vf_u8("errno") % 9]; }
  void start(ChannelSetData& cs, int e)
  {
    int off = t.debug_object_off_array[o.index_];
    errno = e;
    d.start(o, cs, t);
    vf_assert(t.debug_object_off_array[o.index_] == off, "starting a message leaves the off count alone");
    vf_assert(!the_lock.held && !t.lock_interface_is_locked, "the lock is released after starting a message");
  }
  void finish(ChannelSetData& cs)
  {
    int off = t.debug_object_off_array[o.index_];
    d.finish(o, cs, t);
    vf_assert(t.debug_object_off_array[o.index_] == off, "finishing a message leaves the off count alone");
    vf_assert(!the_lock.held && !t.lock_interface_is_locked, "the lock is released after finishing a message");
  }
  void text()
  {
    char s[] = {(char)('a' + budget % 26), (char)('A' + budget % 26), 0};
    std::string x = s;
    if ((vf_u8("text size") & 31) == 31) x = std::string(600, s[0]);
    *d.current_bufferstream << x;
    m.open.back().pending += x;
  }
  void expression(int depth)
  {
    text();
    if (depth < 4 && vf_bool("nested"))
    {
      statements(depth + 1);
      errno = 77;
      text();
    }
  }
  void statements(int depth)
  {
    struct Open { control_flag_t mask; };
    std::vector<Open> cf;
    while (budget-- > 0)
    {
      unsigned op = vf_u8("statement") % 16;
      ChannelSetData cs;
      std::memset((void*)&cs, 0, sizeof cs);
      int l = vf_u8("label") & 3;
      cs.label = labels[l];
      int e = pick_errno();
      if (op == 0) break;
      if (op < 4)
      {
        cs.mask = pick();
        start(cs, e), after_start(cs, e, l);
        control_flag_t mask = cs.mask;
        expression(depth);
        finish(cs);
        m.finish(mask, e, o.interactive_);
      }
      else if (op < 7)
      {
        cs.mask = (pick() & ~(nonewline_cf | wait_cf)) | continued_cf_maskbit;
        start(cs, e), after_start(cs, e, l);
        cf.push_back({cs.mask});
        expression(depth);
        finish(cs);
        m.pause(false);
      }
      else if (op < 9 && !cf.empty())
      {
        cf.back().mask |= continued_maskbit | (vf_bool("flush") ? flush_cf : 0);
        cs.mask = cf.back().mask;
        start(cs, e);
        m.resume(cs.mask);
        expression(depth);
        finish(cs);
        m.pause(true);
      }
      else if (op < 11 && !cf.empty())
      {
        cs.mask = cf.back().mask | finish_maskbit | (pick() & (nonewline_cf | error_cf | flush_cf | wait_cf));
        control_flag_t mask = cs.mask;
        start(cs, e);
        m.resume(mask);
        expression(depth);
        finish(cs);
        m.finish(mask, e, o.interactive_);
        cf.pop_back();
      }
      else if (op == 11) set(d.margin, m.margin, margins[l % 3]);
      else if (op == 12) set(d.marker, m.marker, markers[l % 3]);
      else if (op == 13) { set(d.color_on, m.on, ons[l % 3]); set(d.color_off, m.off, offs[l % 3]); }
      else if (op == 14) { o.set_indent(d.indent + l); m.indent += l; }
      else if (op == 15) locked ? (o.ostream_state_.mutex_ = nullptr, locked = false) : (o.ostream_state_.mutex_ = &the_lock, locked = true);
      check();
    }
    while (!cf.empty())
    {
      ChannelSetData cs;
      std::memset((void*)&cs, 0, sizeof cs);
      cs.mask = cf.back().mask | finish_maskbit;
      start(cs, 5);
      m.resume(cs.mask);
      text();
      finish(cs);
      m.finish(cf.back().mask, 5, o.interactive_);
      cf.pop_back();
    }
    check();
  }
  void after_start(ChannelSetData& cs, int e, int l)
  {
    m.start(cs.mask, labels[l]);
    vf_assert(d.current->buffer.str() == m.open.back().prefix, "the message starts with its prefix");
  }
  // The error numbers that are reported, in order.
  static std::vector<int> reports(std::string const& text)
  {
    std::vector<int> r;
    for (size_t i = text.find(": "); i != std::string::npos; i = text.find(": ", i + 1))
      for (int e : errnos)
      {
        std::string x = std::string(": ") + strerrno(e) + " (" + std::strerror(e) + ")";
        if (text.compare(i, x.size(), x) == 0) r.push_back(e);
      }
    return r;
  }
  void same(std::string const& got, std::string const& want, char const* name)
  {
    if (got != want)
      std::fprintf(stderr, "expected:\n%s\nwritten:\n%s\n", want.c_str(), got.c_str());
    if (got != want)
      vf_assert(reports(got) == reports(want), "the errno that is reported is the one that the message was started with");
    vf_assert(got == want, name);
  }
  void check()
  {
    same(dev.text, m.out, "what is written to the stream is what the messages say");
    same(cerr_dev.text, m.err, "what is written to cerr is what the messages with cerr_cf say");
    vf_assert(d.indent == m.indent, "the indentation is restored");
    if (m.open.empty()) vf_assert(d.output_state_stack.size() == 0, "no message is left behind");
  }
};
}

VF_CONTRACT(history)
{
  History h;
  std::ostream os(&h.dev);
  static std::streambuf* const old_cerr = std::cerr.rdbuf();
  static std::streambuf* const old_cin = std::cin.rdbuf();
  static OutputState* const no_message = h.d.current;
  std::cerr.rdbuf(&h.cerr_dev);
  std::cin.rdbuf(&h.in);
  // As it was, whatever happened before.
  h.d.current = no_message;
  h.d.current_bufferstream = nullptr;
  h.d.output_state_stack.init();
  h.d.start_expected = true;
  h.d.unfinished_expected = false;
  h.o.newlineless_tsd_ = nullptr;
  h.o.unfinished_oss_ = nullptr;
  h.t.lock_interface_is_locked = false;
  h.in.str(std::string(100, '\n'));
  WST_max_len = 8;
  h.o.ostream_state_.real_os_ = &os;
  h.o.ostream_state_.mutex_ = nullptr;
  h.o.interactive_ = vf_bool("interactive");
  locked = false;
  the_lock.held = 0;
  h.set(h.d.margin, h.m.margin, margins[vf_u8("margin") % 3]);
  h.set(h.d.marker, h.m.marker, markers[vf_u8("marker") % 3]);
  h.set(h.d.color_on, h.m.on, "");
  h.set(h.d.color_off, h.m.off, "");
  h.m.indent = vf_u8("indentation") & 7;
  h.o.set_indent(h.m.indent);
  h.t.debug_object_off_array[h.o.index_] = -1;
  h.statements(0);
  std::cerr.rdbuf(old_cerr);
  std::cin.rdbuf(old_cin);
}
#endif
