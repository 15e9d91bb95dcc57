// Contracts for the operators that combine channels and control flags (ChannelSet.inl.h, DebugObject.inl.h,
// AlwaysChannel.inl.h, src/debug.cxx): which debug statements are on, and which continued ones.
#include "src/debug.cxx"
#include "vf.h"
#include <new>
using namespace libcwd;
using libcwd::_private_::ThreadSpecificData;

#ifndef VF_NATIVE
namespace { ThreadSpecificData* the_tsd; }
ThreadSpecificData& ThreadSpecificData::instance() { return *the_tsd; }
#endif

namespace {
template<typename T> union Raw { T c; Raw() { } ~Raw() { } };

ThreadSpecificData& fresh()
{
#ifdef VF_NATIVE
  ThreadSpecificData& t = ThreadSpecificData::instance();
  t.recursive_fatal = false;
  libcwd::_private_::fatal_termination_started = false;
  t.debug_object_off_array[0] = 0;
  return t;
#else
  the_tsd = (ThreadSpecificData*)vf_arbitrary(sizeof(ThreadSpecificData));
  return *the_tsd;
#endif
}

struct World
{
  ThreadSpecificData& t;
  Raw<Channel> a;
  DebugObject_ThreadSpecificData* d;
  OutputState* cur;
  int i, cnt, off, n, k, kept;
  unsigned curmask;
  char const* curlabel;
  World() : t(fresh())
  {
    // One channel in an arbitrary state.
    i = vf_u8("index");
    vf_assume(i > 0);
    cnt = vf_int("channel off count");
    vf_assume(-1 <= cnt);
    a.c.index_ = i;
    a.c.initialized_ = true;
    t.off_cnt_array[i] = cnt;
    // The state of the debug object: n active continued messages that are on.
    d = (DebugObject_ThreadSpecificData*)vf_arbitrary(sizeof(DebugObject_ThreadSpecificData));
    cur = (OutputState*)vf_arbitrary(sizeof(OutputState));
    d->current = cur;
    cur->mask = curmask = vf_u32("current mask");
    cur->label = curlabel = a.c.label_;
    off = vf_int("continued messages that are off");
    vf_assume(0 <= off && off < 0x7fffffff);
    d->off_count = off;
    n = vf_u8("continued messages that are on");
    vf_assume(n <= 64);
    d->continued_stack.current_ = d->continued_stack.stack_ - 1 + n;
    d->continued_stack.end_ = d->continued_stack.stack_ + 63;
    // An arbitrary element of that stack.
    k = vf_u8("element");
    vf_assume(k < 64);
    kept = vf_int("saved off count");
    d->continued_stack.stack_[k] = kept;
  }
  bool on() { return cnt < 0; }
  // The statement did not change which channels are on, nor the messages below the top.
  void unchanged()
  {
    vf_assert(t.off_cnt_array[i] == cnt, "the channel keeps its state");
  }
  void no_continued_change()
  {
    vf_assert(d->off_count == off && depth() == n && d->continued_stack.stack_[k] == kept, "the continued messages are unchanged");
    vf_assert(d->current == cur && cur->mask == curmask && cur->label == curlabel, "the current message is unchanged");
  }
  int depth() { return d->continued_stack.current_ - d->continued_stack.stack_ + 1; }
};

// A set that results from any number of previous operators.
void any(ChannelSetData& s, World& x, char const* label)
{
  s.label = label;
  s.mask = vf_u32("mask");
  s.on = vf_bool("on");
  s.debug_object_tsd_ptr = x.d;
}
}

VF_CONTRACT(first_channel)
{
  World x;
  ChannelSetBootstrap b(*x.d, x.t);
  ChannelSet& s = b | x.a.c;
  vf_cover("first");
  vf_assert((void*)&s == (void*)&b && s.debug_object_tsd_ptr == x.d, "the result is the same set");
  vf_assert(s.on == x.on(), "a statement with one channel is on exactly when that channel is on");
  vf_assert(s.mask == 0 && s.label == x.a.c.label_, "the label is that of the channel, without flags");
  x.unchanged();
  x.no_continued_change();
}

VF_CONTRACT(first_always)
{
  World x;
  ChannelSetBootstrap b(*x.d, x.t);
  AlwaysChannel c;
  ChannelSet& s = b | c;
  vf_cover("always");
  vf_assert((void*)&s == (void*)&b && s.debug_object_tsd_ptr == x.d, "the result is the same set");
  vf_assert(s.on && s.mask == 0 && s.label == AlwaysChannel::label, "the always channel is on");
  x.unchanged();
  x.no_continued_change();
}

VF_CONTRACT(first_fatal)
{
  World x;
  alignas(FatalChannelSetBootstrap) char mem[sizeof(FatalChannelSetBootstrap)];
  FatalChannelSetBootstrap& b = *(FatalChannelSetBootstrap*)mem;
  b.debug_object_tsd_ptr = x.d;
  Raw<FatalChannel> f;
  f.c.maskbit_ = vf_u32("fatal bit");
  ChannelSet& s = b | f.c;
  vf_cover("fatal");
  vf_assert((void*)&s == (void*)&b, "the result is the same set");
  vf_assert(s.on && s.mask == f.c.maskbit_ && s.label == f.c.label_, "a fatal channel is on and marks the statement fatal");
  x.unchanged();
  x.no_continued_change();
}

VF_CONTRACT(add_channel)
{
  World x;
  ChannelSet s;
  char l[1];
  any(s, x, l);
  ChannelSet before = s;
  ChannelSet& r = s | x.a.c;
  vf_cover("channel");
  vf_assert(&r == &s && s.debug_object_tsd_ptr == x.d, "the result is the same set");
  vf_assert(s.on == (before.on || x.on()), "the statement is on when any of its channels is on");
  vf_assert(s.mask == before.mask, "a channel does not change the flags");
  vf_assert(before.on ? s.label == l : !x.on() || s.label == x.a.c.label_, "the label is that of the first channel that is on");
  x.unchanged();
  x.no_continued_change();
}

VF_CONTRACT(add_fatal)
{
  World x;
  ChannelSet s;
  char l[1];
  any(s, x, l);
  ChannelSet before = s;
  Raw<FatalChannel> f;
  f.c.maskbit_ = vf_u32("fatal bit");
  ChannelSet& r = s | f.c;
  vf_cover("fatal");
  vf_assert(&r == &s, "the result is the same set");
  vf_assert(s.on && s.mask == (before.mask | f.c.maskbit_), "a fatal channel turns the statement on and marks it fatal");
  vf_assert(s.label == (before.on ? l : f.c.label_), "the label is that of the first channel that is on");
  x.unchanged();
  x.no_continued_change();
}

VF_CONTRACT(add_flag)
{
  World x;
  ChannelSet s;
  ContinuedChannelSet cs;
  char l[1];
  any(s, x, l);
  any(cs, x, l);
  ChannelSet before = s;
  ContinuedChannelSet cbefore = cs;
  control_flag_t f = vf_u32("flag");
  ChannelSet& r = s | f;
  ContinuedChannelSet& cr = cs | f;
  vf_cover("flag");
  vf_assert(&r == &s && &cr == &cs, "the result is the same set");
  vf_assert(s.on == before.on && cs.on == cbefore.on, "a flag does not turn a statement on or off");
  vf_assert(s.mask == (before.mask | f) && cs.mask == (cbefore.mask | f), "a flag is added to the flags");
  vf_assert(s.label == l && cs.label == l, "a flag keeps the label");
  x.unchanged();
  x.no_continued_change();
}

// The abstract state of continued output is a stack of messages that are each on or off.  off_count is the number of
// messages above the last one that is on; continued_stack has for each message that is on the number that are off below it.
VF_CONTRACT(start_continued)
{
  World x;
  ChannelSet s;
  char l[1];
  any(s, x, l);
  ChannelSet before = s;
  vf_expect_fatal(before.on && x.n == 64);
  ContinuedChannelSet& r = s | continued_cf;
  vf_cover("continued_cf");
  vf_assert((void*)&r == (void*)&s, "the result is the same set");
  vf_assert(s.on == before.on && s.label == l && s.mask == (before.mask | continued_cf_maskbit), "continued_cf only marks the statement");
  if (before.on)
  {
    vf_assert(x.d->off_count == 0 && x.depth() == x.n + 1 && x.d->continued_stack.stack_[x.n] == x.off, "a continued message that is on is pushed");
    vf_assert(x.k == x.n || x.d->continued_stack.stack_[x.k] == x.kept, "the messages below it are unchanged");
  }
  else
  {
    vf_assert(x.d->off_count == x.off + 1 && x.depth() == x.n, "a continued message that is off is counted");
    vf_assert(x.d->continued_stack.stack_[x.k] == x.kept, "the messages below it are unchanged");
  }
  vf_assert(x.d->current == x.cur && x.cur->mask == x.curmask && x.cur->label == x.curlabel, "the current message is unchanged");
  x.unchanged();
}

VF_CONTRACT(continue_or_finish)
{
  World x;
  bool finish = vf_bool("finish");
  Raw<ContinuedChannel> c;
  c.c.maskbit_ = finish ? finish_maskbit : continued_maskbit;
  // dc::continued belongs to an earlier continued_cf.
  bool none = x.off == 0 && x.n == 0;
  vf_assume(finish || !none);
  ChannelSetBootstrap b(*x.d, x.t);
  vf_expect_fatal(none);
  ContinuedChannelSet& s = b | c.c;
  vf_cover("continued");
  vf_assert(!none, "finishing more messages than were started is a fatal error");
  vf_assert((void*)&s == (void*)&b && s.debug_object_tsd_ptr == x.d, "the result is the same set");
  vf_assert(s.on == (x.off == 0), "continued output is on exactly when the message that it continues is on");
  if (x.off == 0)
  {
    vf_assert(s.mask == (x.curmask | c.c.maskbit_) && s.label == x.curlabel, "continued output has the flags and label of the message that it continues");
    vf_assert(x.cur->mask == s.mask, "the current message is marked as being continued or finished");
    if (finish)
      vf_assert(x.depth() == x.n - 1 && (x.k != x.n - 1 || x.d->off_count == x.kept), "finishing a message that is on restores the state from before it");
    else
      vf_assert(x.depth() == x.n && x.d->off_count == 0, "continuing does not end the message");
  }
  else
  {
    vf_assert(x.depth() == x.n && x.d->off_count == x.off - finish, "finishing a message that is off uncounts it");
    vf_assert(x.cur->mask == x.curmask && x.cur->label == x.curlabel, "the current message is unchanged");
  }
  vf_assert(x.d->continued_stack.stack_[x.k] == x.kept && x.d->current == x.cur, "the messages below it are unchanged");
  x.unchanged();
}
