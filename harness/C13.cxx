// Contracts for writing a message: DebugObject_ThreadSpecificData::start and finish, Buffer::writeto and
// OstreamState (src/debug.cxx, DebugObject.inl.h).
#include "src/debug.cxx"
#include "vf.h"
#include <new>
using namespace libcwd;
using libcwd::_private_::ThreadSpecificData;
using libcwd::_private_::LockInterfaceBase;

#ifdef VF_NATIVE
// These contracts speak about intermediate states (the buffer of one message); natively the same properties are
// checked on whole histories, see C13hist.cxx.
VF_CONTRACT(writeto_plain) { }
VF_CONTRACT(writeto_unfinished) { }
VF_CONTRACT(writeto_continued) { }
VF_CONTRACT(writeto_continued_unfinished) { }
VF_CONTRACT(writeto_other_thread_000) { }
VF_CONTRACT(writeto_other_thread_001) { }
VF_CONTRACT(writeto_other_thread_010) { }
VF_CONTRACT(writeto_other_thread_011) { }
VF_CONTRACT(writeto_other_thread_100) { }
VF_CONTRACT(writeto_other_thread_101) { }
VF_CONTRACT(writeto_other_thread_110) { }
VF_CONTRACT(writeto_other_thread_111) { }
VF_CONTRACT(write_prefix) { }
VF_CONTRACT(start_first) { }
VF_CONTRACT(start_nested) { }
VF_CONTRACT(start_interrupting_first) { }
VF_CONTRACT(start_interrupting_again) { }
VF_CONTRACT(start_resumed) { }
VF_CONTRACT(finish_message) { }
VF_CONTRACT(finish_statement) { }
VF_CONTRACT(stack) { }
VF_CONTRACT(whitespace) { }
#else

namespace { ThreadSpecificData* the_tsd; }
ThreadSpecificData& ThreadSpecificData::instance() { return *the_tsd; }
namespace libcwd::_private_ { std::atomic_bool WST_multi_threaded; }

extern "C" {
// Everything that is written to the object at p goes to this sink.
void vf_alias(void const* p, std::ostream* sink);
// From here on writes to the sinks oblige that the lock is held.
void vf_lock_needed(bool);
void vf_lock_event(int held);
size_t vf_sink_pos(std::ostream* sink);   // how much was written
int vf_flushes();
}

namespace {

// A lock that must be used by the book.
struct FakeLock : LockInterfaceBase
{
  int held, locks, unlocks;
  // Another thread can have the lock: then the debug object writes without it in the end, which is not claimed.
  int try_lock() override
  {
    vf_assert(!held, "the lock is not requested while it is held");
    held = vf_bool("the lock is free");
    vf_lock_event(held);
    vf_lock_needed(held);
    if (held) ++locks;
    return held;
  }
  void lock() override { vf_assert(!held, "the lock is not requested while it is held"); held = 1; ++locks; vf_lock_event(1); }
  void unlock() override { vf_assert(held, "only a lock that is held is released"); held = 0; ++unlocks; vf_lock_event(0); }
};

struct Text { char const* s; size_t n; };
Text text(DebugString& ds, char const* name)
{
  char const* s = vf_cstr(name);
  Text t = {s, __builtin_strlen(s)};
  vf_assume(t.n < 0x80000000u);
  ds.str_ = const_cast<char*>(s);
  ds.size_ = t.n;
  return t;
}
void e_text(std::ostream* s, Text const& t) { vf_e_mem(s, t.s, t.n); }

// The stringbuf inside a Buffer: its text, how far it was read and how far it is written.
struct StringBuf { std::streambuf const* self; char const* text; long g, p, end; std::ostream* written; } sb;

struct World
{
  ThreadSpecificData& t;
  DebugObject& o;
  DebugObject_ThreadSpecificData& d;
  FakeLock lock;
  bool locked;                          // there is a lock
  std::ostream* os;                     // the stream of the debug object
  Text color_on, color_off, margin, marker;
  World() : t(*(the_tsd = (ThreadSpecificData*)vf_arbitrary(sizeof(ThreadSpecificData)))),
      o(*(DebugObject*)vf_arbitrary(sizeof(DebugObject))),
      d(*(DebugObject_ThreadSpecificData*)vf_arbitrary(sizeof(DebugObject_ThreadSpecificData)))
  {
    o.index_ = 1;
    t.debug_object_array[1] = &d;
    os = vf_sink();
    o.ostream_state_.real_os_ = os;
    lock.held = lock.locks = lock.unlocks = 0;
    locked = vf_bool("there is a lock");
    if (locked) o.ostream_state_.mutex_ = &lock; else o.ostream_state_.mutex_ = nullptr;
    vf_lock_needed(locked);
    _private_::WST_multi_threaded = false;
    t.lock_interface_is_locked = false;
    color_on = text(d.color_on, "color on");
    color_off = text(d.color_off, "color off");
    margin = text(d.margin, "margin");
    marker = text(d.marker, "marker");
  }
  void lock_released(int times)
  {
    vf_assert(!lock.held && lock.locks == lock.unlocks, "the lock is released");
    vf_assert(lock.locks == (locked ? times : 0), "the lock is requested once for every time the stream is written to");
  }
};
}

// The stringbuf member functions that the code uses.
extern "C" std::streampos vf_sb_seekoff(std::streambuf* self, std::streamoff off, std::ios_base::seekdir dir, std::ios_base::openmode which)
{
  vf_assert(self == sb.self, "the buffer of this message is used");
  vf_assert(off == 0 && dir == std::ios_base::cur, "positions are only asked for");
  return std::streampos(which == std::ios_base::in ? sb.g : sb.written ? (long)vf_sink_pos(sb.written) : sb.p);
}
extern "C" std::streampos vf_sb_seekpos(std::streambuf* self, std::streampos pos, std::ios_base::openmode which)
{
  vf_assert(self == sb.self, "the buffer of this message is used");
  long x = pos;
  vf_assert(0 <= x && x <= sb.end, "a position inside the text");
  vf_assert(!sb.written || vf_sink_pos(sb.written) == 0, "the text is truncated before it is continued");
  if (which & std::ios_base::in) sb.g = x;
  if (which & std::ios_base::out) sb.p = x;
  return pos;
}
extern "C" std::streamsize vf_sb_sgetn(std::streambuf* self, char* to, std::streamsize n)
{
  vf_assert(self == sb.self, "the buffer of this message is used");
  vf_assert(n >= 0 && sb.g + n <= sb.end, "no more is read than there is");
  __builtin_memcpy(to, sb.text + sb.g, n);
  sb.g += n;
  return n;
}
extern "C" int vf_sb_sgetc(std::streambuf* self)
{
  vf_assert(self == sb.self, "the buffer of this message is used");
  return sb.g < sb.end ? (unsigned char)sb.text[sb.g] : -1;
}
extern "C" int vf_sb_snextc(std::streambuf* self)
{
  vf_assert(self == sb.self, "the buffer of this message is used");
  if (sb.g < sb.end) ++sb.g;
  return sb.g < sb.end ? (unsigned char)sb.text[sb.g] : -1;
}

//---------------------------------------------------------------------------------------------------------------------
// Writing a buffer to the stream.

namespace {
struct Out : World
{
  Buffer& b;
  std::ostream* target;
  std::ostream* dest;
  bool unfinished, flush, newline, nonewline_cf;
  bool already, needed;
  size_t prefix;
  long g, p;
  Out(bool needed_, bool unfinished_) : b(*(Buffer*)vf_arbitrary(sizeof(Buffer)))
  {
    sb.self = &b;
    sb.end = vf_size("length of the text");
    sb.text = vf_buf("text of the message", sb.end);
    sb.g = g = vf_size("already written");
    sb.p = p = vf_size("end of the text");
    vf_assume(g <= p && p <= sb.end && p - g < 0x7fffffff);
    prefix = vf_size("length of the prefix");
    vf_assume(prefix <= (size_t)sb.end && prefix < 0x7fffffff);
    b.position_ = prefix;
    b.unfinished_already_printed_ = already = vf_bool("unfinished already printed");
    b.continued_needed_ = needed = needed_;
    sb.written = nullptr;
    o.unfinished_oss_ = nullptr;
    o.newlineless_tsd_ = nullptr;
    unfinished = unfinished_;
    flush = vf_bool("do flush");
    newline = vf_bool("ends on newline");
    nonewline_cf = vf_bool("possible nonewline_cf");
    // Either the stream of the debug object, or the one that is passed.
    if (vf_bool("other stream")) dest = target = vf_sink(); else { target = nullptr; dest = os; }
  }
  void expect()
  {
    if (needed && p > g)
    {
      vf_e_mem(dest, sb.text, prefix);
      e_text(dest, color_off);
      vf_e_mem(dest, "<continued>", 11);
      e_text(dest, color_on);
      vf_e_char(dest, ' ');
      already = false;
    }
    vf_e_mem(dest, sb.text + g, p - g);
    if (unfinished && !already)
    {
      e_text(dest, color_off);
      vf_e_mem(dest, "<unfinished>\n", 13);
    }
  }
  void check(bool was_newlineless)
  {
    vf_expect_done(os, "the text is written");
    if (target) vf_expect_done(target, "the text is written");
    lock_released(1);
    vf_assert(!t.lock_interface_is_locked, "the lock is no longer marked as held");
    vf_assert(sb.g == p && sb.p == p, "what was written is not written again");
    vf_assert(b.unfinished_already_printed_ == newline, "an unfinished marker is due exactly when the line was not ended");
    vf_assert(b.continued_needed_ == (needed && p == g), "the continued marker is written once");
    if (newline)
      vf_assert(!o.unfinished_oss_ && !o.newlineless_tsd_, "the line is ended");
    else if (p > g)
      vf_assert(o.newlineless_tsd_ == &t && o.unfinished_oss_ == (nonewline_cf ? nullptr : &b), "the line is open, and whose it is");
    else
      vf_assert((o.newlineless_tsd_ != nullptr) == was_newlineless, "nothing changes");
  }
};
}

// The contract of Buffer::write_prefix_to, for its callers.
extern "C" void vf_write_prefix_to(Buffer* self, std::ostream* to)
{
  vf_assert(self == sb.self, "the buffer of this message is used");
  to->write(sb.text, (long)self->position_);
}

VF_CONTRACT(write_prefix)
{
  Out x(false, false);
  vf_e_mem(x.os, sb.text, x.prefix);
  x.lock.held = 1;
  vf_lock_event(1);
  x.b.write_prefix_to(x.os);
  vf_cover("written");
  vf_expect_done(x.os, "the prefix is written");
  vf_assert(sb.g == x.g && sb.p == x.p, "the positions in the buffer are kept");
}

extern "C" bool vf_flushed(std::ostream*, int before);

namespace {
void writeto(bool needed, bool unfinished)
{
  Out x(needed, unfinished);
  bool mine = vf_bool("an open line of this thread");
  if (mine) { x.o.newlineless_tsd_ = &x.t; x.o.unfinished_oss_ = nullptr; }
  x.expect();
  x.b.writeto(x.target, x.t, x.o, x.unfinished, x.flush, x.newline, x.nonewline_cf);
  vf_cover("written");
  x.check(mine);
}
}
VF_CONTRACT(writeto_plain) { writeto(false, false); }
VF_CONTRACT(writeto_unfinished) { writeto(false, true); }
VF_CONTRACT(writeto_continued) { writeto(true, false); }
VF_CONTRACT(writeto_continued_unfinished) { writeto(true, true); }

namespace {
void writeto_other(bool needed, bool unfinished, bool continued)
{
  // Another thread has an open line.
  Out x(needed, unfinished);
  ThreadSpecificData& t2 = *(ThreadSpecificData*)vf_arbitrary(sizeof(ThreadSpecificData));
  DebugObject_ThreadSpecificData& d2 = *(DebugObject_ThreadSpecificData*)vf_arbitrary(sizeof(DebugObject_ThreadSpecificData));
  t2.debug_object_array[1] = &d2;
  Text color_off2 = text(d2.color_off, "color off of the other thread");
  Buffer* b2 = nullptr;
  bool a2 = vf_bool("a2"), n2 = vf_bool("n2");
  x.o.newlineless_tsd_ = &t2;
  if (continued)
  {
    b2 = (Buffer*)vf_arbitrary(sizeof(Buffer));
    b2->unfinished_already_printed_ = a2;
    b2->continued_needed_ = n2;
    x.o.unfinished_oss_ = b2;
  }
  e_text(x.dest, color_off2);
  if (continued)
    vf_e_mem(x.dest, "<unfinished>\n", 13);
  else
    vf_e_mem(x.dest, "<no newline>\n", 13);
  x.expect();
  x.b.writeto(x.target, x.t, x.o, x.unfinished, x.flush, x.newline, x.nonewline_cf);
  vf_cover("written");
  x.check(true);
  if (continued)
    vf_assert(b2->unfinished_already_printed_ && b2->continued_needed_, "the interrupted message is to be continued");
}
}
VF_CONTRACT(writeto_other_thread_000) { writeto_other(0, 0, 0); }
VF_CONTRACT(writeto_other_thread_001) { writeto_other(0, 0, 1); }
VF_CONTRACT(writeto_other_thread_010) { writeto_other(0, 1, 0); }
VF_CONTRACT(writeto_other_thread_011) { writeto_other(0, 1, 1); }
VF_CONTRACT(writeto_other_thread_100) { writeto_other(1, 0, 0); }
VF_CONTRACT(writeto_other_thread_101) { writeto_other(1, 0, 1); }
VF_CONTRACT(writeto_other_thread_110) { writeto_other(1, 1, 0); }
VF_CONTRACT(writeto_other_thread_111) { writeto_other(1, 1, 1); }

//---------------------------------------------------------------------------------------------------------------------
// The start and the end of a message.

namespace {
int my_errno;

// The stack of interrupted messages; its own contract is below.
struct Stack { OutputState* pushed; int pushes, pops; size_t size; OutputState* top; } st;

// What writeto was asked to do.
struct Writes { int n; Buffer* self; std::ostream* target; bool unfinished, flush, newline, nonewline_cf; } w;

std::ostream* buffer_text;               // what is written to the buffer of the current message
std::ostream* new_text;                  // and to that of a new one
OutputState* new_state;
bool must_be_done;                       // the text of the buffer is complete when it is written to the stream
bool fatal_message, core_message, owner, fatal_start;

struct Msg : World
{
  OutputState& old;
  control_flag_t mask0;                  // that of the current message
  ChannelSetData cs;
  control_flag_t mask;
  size_t max_len;
  int off, e;
  unsigned short indent;
  bool start_expected, unfinished_expected;
  Msg() : old(*(OutputState*)vf_arbitrary(sizeof(OutputState)))
  {
    d.current = &old;
    d.current_bufferstream = &old.bufferstream;
    old.mask = mask0 = vf_u32("control flags of the current message");
    old.err = vf_int("errno of the current message");
    old.label = nullptr;
    buffer_text = vf_sink();
    new_text = vf_sink();
    vf_alias(&old, buffer_text);
    cs.mask = mask = vf_u32("control flags");
    max_len = vf_u16("longest label");
    vf_assume(max_len > 0);
    WST_max_len = (unsigned short)max_len;
    cs.label = vf_buf("label", max_len);
    off = vf_int("off count");
    vf_assume(off < 0x7fffffff);
    t.debug_object_off_array[1] = off;
    d.indent = indent = vf_u16("indentation");
    my_errno = e = vf_int("errno");
    d.start_expected = start_expected = vf_bool("start expected");
    d.unfinished_expected = unfinished_expected = vf_bool("unfinished expected");
    st.pushed = nullptr;
    st.pushes = st.pops = 0;
    st.size = vf_size("interrupted messages");
    w.n = 0;
    w.self = &old.buffer;
    new_state = nullptr;
    must_be_done = fatal_message = false;
    fatal_start = false;
    sb.self = &old.buffer;
    sb.text = nullptr;
    sb.g = sb.p = 0;
    sb.end = 0x7fffffff;
    sb.written = nullptr;
  }
  void unchanged()
  {
    vf_assert(t.debug_object_off_array[1] == off, "the off count is as it was");
    vf_assert(!lock.held && lock.locks == lock.unlocks, "the lock is released");
  }
};
World* world;
}

extern "C" int* vf_errno_location() { return &my_errno; }
extern "C" void vf_stack_push(void*, OutputState* s) { st.pushed = s; ++st.pushes; }
extern "C" void vf_stack_pop(void*) { ++st.pops; --st.size; }
extern "C" OutputState* vf_stack_top(void*) { return st.top; }
extern "C" size_t vf_stack_size(void*) { return st.size; }
extern "C" void vf_bufferstream(_private_::BufferStream* self, std::stringbuf* buf)
{
  vf_assert(!new_state, "one message is started");
  new_state = (OutputState*)((char*)self - offsetof(OutputState, bufferstream));
  vf_assert(buf == &new_state->buffer, "the message is collected in its own buffer");
  vf_alias(new_state, new_text);
  sb.self = &new_state->buffer;
  sb.written = new_text;
}
extern "C" void vf_writeto(Buffer* self, std::ostream* os, ThreadSpecificData& tsd, DebugObject& o, bool unfinished, bool flush, bool newline, bool nonewline_cf)
{
  vf_assert(w.n == 0, "the text is written to the stream once");
  vf_assert(self == w.self && &tsd == &world->t && &o == &world->o, "the text of the message is written to the stream");
  vf_assert(!world->lock.held, "the lock is not requested while it is held");
  ++w.n;
  w.target = os;
  w.unfinished = unfinished;
  w.flush = flush;
  w.newline = newline;
  w.nonewline_cf = nonewline_cf;
  if (must_be_done)
    vf_expect_done(buffer_text, "the message is complete when it is written to the stream");
  else
    vf_assert(vf_sink_pos(buffer_text) == 0, "what belongs to the next part of the message is not written yet");
  vf_expect_fatal(fatal_message);
  my_errno = vf_int("errno after writing");
}

namespace {
void e_continued(Msg& x)
{
  // What an interrupted message goes on with.
  e_text(buffer_text, x.color_off);
  vf_e_mem(buffer_text, "<continued>", 11);
  e_text(buffer_text, x.color_on);
  vf_e_char(buffer_text, ' ');
}
size_t part(Text const& t, bool blank)
{
  if (blank) vf_e_fill(new_text, ' ', t.n); else vf_e_mem(new_text, t.s, t.n);
  return t.n;
}
// The prefix of a new message.
size_t e_prefix(Msg& x, control_flag_t mask, unsigned short indent)
{
  size_t n = x.color_on.n;
  e_text(new_text, x.color_on);
  if (!(mask & noprefix_cf))
  {
    n += part(x.margin, mask & blank_margin_cf);
    if (!(mask & nolabel_cf))
    {
      Text label = {x.cs.label, x.max_len};
      n += part(label, mask & blank_label_cf);
      n += part(x.marker, mask & blank_marker_cf);
      vf_e_fill(new_text, ' ', indent);
      n += indent;
    }
  }
  return n;
}
// A new message is started; nested is false when it is the first, or the second in the same place.
void start(bool interrupting, bool nested)
{
  Msg x;
  world = &x;
  vf_assume(!(x.mask & (continued_maskbit | finish_maskbit)));
  vf_assume(x.start_expected == !nested);
  vf_assume(((x.mask0 & continued_cf_maskbit) && x.unfinished_expected) == interrupting);
  long prefix = 0;
  if (interrupting)
  {
    prefix = vf_u32("length of the prefix of the interrupted message") >> 1;
    x.old.buffer.position_ = prefix;
    x.old.buffer.unfinished_already_printed_ = vf_bool("unfinished already printed");
    x.old.buffer.continued_needed_ = vf_bool("continued needed");
    sb.g = vf_u32("already written") >> 1;
    sb.p = vf_u32("end of the text") >> 1;
    e_continued(x);
    sb.written = buffer_text;
  }
  unsigned short indent = nested ? x.indent + 4 : x.indent;
  size_t n = e_prefix(x, x.mask, indent);
  x.d.start(x.o, x.cs, x.t);
  vf_cover("started");
  x.unchanged();
  vf_assert(x.lock.locks == 0, "starting a message does not use the stream itself");
  if (interrupting)
  {
    vf_assert(w.n == 1, "an interrupted message is written to the stream");
    vf_assert(w.target == ((x.mask0 & cerr_cf) ? &std::cerr : nullptr), "an interrupted message is written to its own stream");
    vf_assert(w.unfinished && w.newline, "an interrupted message is marked as unfinished");
    vf_expect_done(buffer_text, "an interrupted message goes on with the continued marker");
    vf_assert(sb.p == prefix, "an interrupted message goes on after its prefix");
    vf_assert(!x.old.buffer.unfinished_already_printed_ && !x.old.buffer.continued_needed_, "the markers are not written twice");
  }
  else
  {
    vf_assert(w.n == 0, "nothing is written to the stream yet");
    vf_expect_done(x.os, "nothing is written to the stream yet");
  }
  control_flag_t mask = nested ? x.mask | (x.mask0 & cerr_cf) : x.mask;
  vf_assert(new_state && x.d.current == new_state && x.d.current_bufferstream == &new_state->bufferstream, "the new message is the current one");
  vf_assert(x.d.current->mask == mask, "the new message has the requested flags");
  vf_assert(x.d.current->err == x.e, "the message has the errno that it was started with");
  vf_assert(!x.d.start_expected && x.d.unfinished_expected, "the new message can be interrupted");
  vf_assert(x.d.indent == indent, "a nested message is indented by four");
  if (nested)
    vf_assert(st.pushes == 1 && st.pushed == &x.old && st.pops == 0, "the interrupted message is remembered");
  else
    vf_assert(st.pushes == 0 && st.pops == 0, "no message is interrupted");
  vf_expect_done(new_text, "the message starts with its prefix");
  if (x.mask & continued_cf_maskbit)
    vf_assert((unsigned long)(long)x.d.current->buffer.position_ == n, "the prefix of a continued message is remembered");
}
}

VF_CONTRACT(start_first) { start(false, false); }
VF_CONTRACT(start_nested) { start(false, true); }
VF_CONTRACT(start_interrupting_first) { start(true, true); }
VF_CONTRACT(start_interrupting_again) { start(true, false); }

// The program ends because dc::continued or dc::finish was used without a message to continue.
extern "C" void vf_fatal_start(void*)
{
  vf_assert(fatal_start, "a fatal error happens only where the contract requires one");
  vf_expect_done(world->os, "the line is ended before the error message");
  vf_expect_done(buffer_text, "the message itself is left alone");
  vf_assert(!world->lock.held && world->lock.locks == world->lock.unlocks, "the lock is released");
  vf_expect_fatal(true);
  core_dump();
}

VF_CONTRACT(start_resumed)
{
  Msg x;
  world = &x;
  vf_assume(x.mask & (continued_maskbit | finish_maskbit));
  bool matched = x.mask0 & continued_expected_maskbit;
  vf_assume(matched || !(x.mask & cerr_cf));
  if (!matched)
  {
    e_text(x.os, x.color_off);
    vf_e_char(x.os, '\n');
  }
  fatal_start = !matched;
  x.d.start(x.o, x.cs, x.t);
  vf_cover("resumed");
  x.unchanged();
  vf_assert(matched, "only a message that was started can be continued");
  vf_expect_done(x.os, "nothing is written to the stream yet");
  vf_expect_done(buffer_text, "the text goes on where it was");
  vf_assert(w.n == 0 && x.lock.locks == 0 && !new_state, "the same message goes on");
  vf_assert(x.d.current == &x.old && x.d.current_bufferstream == &x.old.bufferstream, "the same message goes on");
  vf_assert(x.old.mask == ((x.mask & finish_maskbit) ? x.mask & ~continued_expected_maskbit : x.mask), "the message has the flags of the last part");
  vf_assert(x.old.err == x.e, "the message has the errno that its last part was started with");
  vf_assert(x.d.start_expected == x.start_expected && x.d.unfinished_expected == x.unfinished_expected && x.d.indent == x.indent, "the message is as it was");
  vf_assert(st.pushes == 0 && st.pops == 0, "no message is interrupted");
}

namespace {
Text err_name, err_text;
int err_value, last_read;
}
extern "C" char const* vf_strerrno(int e) { vf_assert(e == err_value, "the name is that of the errno of the message"); return err_name.s; }
extern "C" char const* vf_strerror_r(int e, char* buf, size_t n)
{
  vf_assert(e == err_value, "the text is that of the errno of the message");
  my_errno = vf_int("errno after strerror_r");
  return err_text.s;
}
extern "C" int vf_cin_get(std::istream*) { vf_assert(!world->locked || world->lock.held, "the lock is held while waiting"); return last_read = vf_int("character"); }
extern "C" bool vf_claim() { vf_assert(fatal_message && w.n == 1, "the program ends only after a fatal message was written"); return owner; }
extern "C" void vf_sleep(void*) { vf_assert(!owner, "the thread that ends the program does not wait"); vf_expect_fatal(true); core_dump(); }
extern "C" void vf_abort() { vf_assert(fatal_message && core_message && w.n == 1 && owner, "the program dumps core only after a core dump message was written"); vf_expect_fatal(true); core_dump(); }
extern "C" void vf_exit(int) { vf_assert(fatal_message && !core_message && w.n == 1 && owner, "the program ends only after a fatal message was written"); vf_expect_fatal(true); core_dump(); }

VF_CONTRACT(finish_message)
{
  Msg x;
  world = &x;
  vf_assume(!(x.mask0 & continued_cf_maskbit) || (x.mask0 & finish_maskbit));
  fatal_message = x.mask0 & (coredump_maskbit | fatal_maskbit);
  core_message = x.mask0 & coredump_maskbit;
  owner = vf_bool("the first thread with a fatal message");
  x.t.recursive_fatal = vf_bool("recursive fatal");
  x.o.interactive_ = vf_bool("interactive");
  bool always = vf_bool("always flush");
  x.o.always_flush_ = always;
  err_value = x.old.err;
  OutputState* outer = (OutputState*)vf_arbitrary(sizeof(OutputState));
  control_flag_t outer_mask = vf_u32("control flags of the interrupted message");
  outer->mask = outer_mask;
  st.top = outer;
  vf_assume(x.start_expected == false || st.size > 0);
  size_t left = x.start_expected ? st.size - 1 : st.size;
  if (x.mask0 & error_cf)
  {
    char const* a = vf_cstr("name of the errno");
    char const* b = vf_cstr("text of the errno");
    err_name = {a, __builtin_strlen(a)};
    err_text = {b, __builtin_strlen(b)};
    vf_e_mem(buffer_text, ": ", 2);
    e_text(buffer_text, err_name);
    vf_e_mem(buffer_text, " (", 2);
    e_text(buffer_text, err_text);
    vf_e_char(buffer_text, ')');
  }
  if (!(x.mask0 & nonewline_cf))
  {
    e_text(buffer_text, x.color_off);
    vf_e_char(buffer_text, '\n');
  }
  must_be_done = true;
  std::ostream* target = (x.mask0 & cerr_cf) ? &std::cerr : nullptr;
  bool wait = x.mask0 & wait_cf;
  if (wait)
  {
    vf_assume(!target);
    vf_e_mem(x.os, "(type return)", 13);
  }
  last_read = '\n';
  x.d.finish(x.o, x.cs, x.t);
  vf_cover("finished");
  x.unchanged();
  vf_assert(!fatal_message, "a fatal message ends the program");
  vf_assert(w.n == 1 && w.target == target && !w.unfinished, "a finished message is written to its stream, once");
  vf_assert(w.newline == !(x.mask0 & nonewline_cf), "the line is ended unless that was not wanted");
  vf_assert(w.newline || w.nonewline_cf, "the open line is not that of a continued message");
  vf_assert(wait || w.flush == (always || (x.mask0 & flush_cf)), "the stream is flushed when that was requested");
  vf_expect_done(x.os, "nothing else is written to the stream");
  x.lock_released(wait ? 1 : 0);
  vf_assert(last_read == '\n', "waiting ends with the line");
  vf_assert(x.d.indent == (unsigned short)(x.start_expected ? x.indent - 4 : x.indent), "the indentation is restored");
  vf_assert(st.pushes == 0 && st.pops == (x.start_expected ? 1 : 0), "the stack is restored");
  if (left)
  {
    vf_assert(x.d.current == outer && x.d.current_bufferstream == &outer->bufferstream, "the interrupted message is the current one again");
    vf_assert((outer->mask & ~flush_cf) == (outer_mask & ~flush_cf), "the interrupted message keeps its flags");
  }
  else
    vf_assert(x.d.current == (OutputState*)_private_::WST_dummy_output_state && !x.d.current_bufferstream, "there is no current message");
  vf_assert(x.d.start_expected && !x.d.unfinished_expected, "the next message is not nested");
}

VF_CONTRACT(finish_statement)
{
  // The message goes on.
  Msg x;
  world = &x;
  vf_assume((x.mask0 & continued_cf_maskbit) && !(x.mask0 & finish_maskbit));
  bool always = vf_bool("always flush");
  x.o.always_flush_ = always;
  x.d.finish(x.o, x.cs, x.t);
  vf_cover("finished");
  x.unchanged();
  bool flush = always || (x.mask0 & flush_cf);
  vf_expect_done(buffer_text, "nothing is added to the text");
  vf_expect_done(x.os, "nothing else is written to the stream");
  vf_assert(w.n == (flush ? 1 : 0), "an open message is written to the stream only when that was requested");
  if (flush)
    vf_assert(w.target == ((x.mask0 & cerr_cf) ? &std::cerr : nullptr) && !w.unfinished && w.flush && !w.newline && !w.nonewline_cf, "an open message stays open");
  vf_assert(x.d.current == &x.old && x.d.current_bufferstream == &x.old.bufferstream && !new_state, "the message stays the current one");
  vf_assert(x.old.mask == (x.mask0 | continued_expected_maskbit), "the message can be continued");
  vf_assert(x.d.unfinished_expected == (x.unfinished_expected || flush || (x.mask0 & continued_maskbit)), "a part that was added can be interrupted");
  vf_assert(x.d.start_expected == x.start_expected && x.d.indent == x.indent && st.pushes == 0 && st.pops == 0, "the message stays where it is");
  vf_assert(x.lock.locks == 0, "the lock is not used");
}

VF_CONTRACT(whitespace)
{
  std::ostream* os = vf_sink();
  unsigned n = vf_u32("size");
  vf_e_fill(os, ' ', n);
  write_whitespace_to(*os, n);
  vf_cover("written");
  vf_expect_done(os, "as many blanks as requested");
}

VF_CONTRACT(stack)
{
  // What the contracts above assume of the stack, from any number of interrupted messages.
  using S = _private_::DebugStack<unsigned long>;
  S& s = *(S*)vf_arbitrary(sizeof(S));
  s.init();
  vf_assert(s.size() == 0, "the stack starts empty");
  size_t n = vf_size("number of elements");
  vf_assume(n < S::max_size);
  s.current_ = s.stack_ + n - 1;
  size_t k = vf_size("k");
  vf_assume(k < n);
  unsigned long below = s.stack_[k], v = vf_u64("value");
  vf_assert(s.size() == n, "the size is the number of elements");
  s.push(v);
  vf_assert(s.size() == n + 1 && s.top() == v, "what was pushed is on top");
  vf_assert(s.stack_[k] == below, "the other elements stay");
  s.pop();
  vf_cover("popped");
  vf_assert(s.size() == n && s.top() == s.stack_[n - 1] && s.stack_[k] == below, "what was pushed is removed");
}
#endif
