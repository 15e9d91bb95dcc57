// Contracts for turning debug channels and debug objects on and off (src/debug.cxx, Channel.inl.h, DebugObject.inl.h).
#include "src/debug.cxx"
#include "vf.h"
#include <new>
using libcwd::Channel;
using libcwd::DebugObject;
using libcwd::_private_::ThreadSpecificData;

#ifndef VF_NATIVE
namespace { ThreadSpecificData* the_tsd; }
libcwd::_private_::ThreadSpecificData& libcwd::_private_::ThreadSpecificData::instance() { return *the_tsd; }
#endif

namespace {
union RawChannel { Channel c; RawChannel() { } ~RawChannel() { } };

ThreadSpecificData& fresh()
{
#ifdef VF_NATIVE
  static bool once;
  if (!once) { once = true; std::cerr.rdbuf(nullptr); }
  ThreadSpecificData& t = ThreadSpecificData::instance();
  t.recursive_fatal = false;
  libcwd::_private_::fatal_termination_started = false;
  if (t.debug_object_array[0])
    t.debug_object_array[0]->init();
  return t;
#else
  the_tsd = (ThreadSpecificData*)vf_arbitrary(sizeof(ThreadSpecificData));
  return *the_tsd;
#endif
}

struct Chan
{
  ThreadSpecificData& t;
  RawChannel r, o;
  int i, j, c, d, off[2];
  // Two different channels with arbitrary indices in arbitrary states.
  Chan() : t(fresh())
  {
    i = vf_u8("index");
    j = vf_u8("other index");
    vf_assume(i > 0 && j != i && i < LIBCWD_DC_MAX && j < LIBCWD_DC_MAX);
    c = vf_int("off count");
    d = vf_int("other off count");
    vf_assume(-1 <= c && c < 0x7fffffff && -1 <= d);
    r.c.index_ = i;
    r.c.initialized_ = true;
    o.c.index_ = j;
    o.c.initialized_ = true;
    t.off_cnt_array[i] = c;
    t.off_cnt_array[j] = d;
    off[0] = vf_int("object off");
    off[1] = vf_int("object off");
    vf_assume(-1 <= off[0] && off[0] < 0x7fffff00 && -1 <= off[1]);
    t.debug_object_off_array[0] = off[0];
    t.debug_object_off_array[1] = off[1];
  }
  void others_unchanged()
  {
    vf_assert(t.off_cnt_array[j] == d, "another channel keeps its state");
    vf_assert(t.debug_object_off_array[0] == off[0] && t.debug_object_off_array[1] == off[1], "the debug objects keep their state");
#ifdef VF_NATIVE
    t.debug_object_off_array[0] = 0;
    t.debug_object_off_array[1] = 0;
#endif
  }
  bool on() { return r.c.is_on(); }
};
}

VF_CONTRACT(channel_off)
{
  Chan x;
  bool was = x.on();
  vf_assert(was == (x.c < 0), "a channel is on exactly while it was turned on once more than off");
  vf_assert(x.r.c.is_on(x.t) == was, "both ways of asking agree");
  x.r.c.off();
  vf_cover("off");
  vf_assert(x.t.off_cnt_array[x.i] == x.c + 1, "off() counts one");
  vf_assert(!x.on(), "a channel is off after off()");
  x.others_unchanged();
}

VF_CONTRACT(channel_on)
{
  Chan x;
  bool was = x.on();
  vf_expect_fatal(was);
  x.r.c.on();
  vf_cover("on");
  vf_assert(!was, "turning a channel on that is on already is a fatal error");
  vf_assert(x.t.off_cnt_array[x.i] == x.c - 1, "on() cancels one off()");
  vf_assert(x.on() == (x.c == 0), "a channel is on when all off() calls are cancelled");
  x.others_unchanged();
}

// One balanced pair; longer balanced sequences follow by induction from this and the two contracts above.
VF_CONTRACT(channel_balance)
{
  Chan x;
  bool was = x.on();
  x.r.c.off();
  x.r.c.on();
  vf_cover("balanced");
  vf_assert(x.on() == was && x.t.off_cnt_array[x.i] == x.c, "equally many off() and on() calls restore the state");
  x.others_unchanged();
}

VF_CONTRACT(channel_force)
{
  Chan x;
  Channel::OnOffState state;
  x.r.c.force_on(state, "X");
  vf_cover("forced");
  vf_assert(x.on(), "a forced channel is on");
  vf_assert(x.t.off_cnt_array[x.j] == x.d, "another channel keeps its state");
  int after = vf_int("after");
  if (vf_bool("unbalanced"))
  {
    vf_assume(after != -1);
    x.t.off_cnt_array[x.i] = after;
    vf_expect_fatal(true);
    x.r.c.restore(state);
    vf_assert(false, "unbalanced on() and off() calls between force_on() and restore() are a fatal error");
  }
  x.r.c.off();
  vf_assert(!x.on(), "a forced channel can be turned off");
  x.r.c.on();
  x.r.c.restore(state);
  vf_cover("restored");
  vf_assert(x.t.off_cnt_array[x.i] == x.c, "restore() restores the state before force_on()");
  x.others_unchanged();
}

// A second force_on inside a forced period.
VF_CONTRACT(channel_force_nested)
{
  Chan x;
  Channel::OnOffState s1, s2;
  x.r.c.force_on(s1, "X");
  bool off = vf_bool("off");
  if (off)
    x.r.c.off();
  x.r.c.force_on(s2, "X");
  vf_assert(x.on(), "a forced channel is on");
  x.r.c.restore(s2);
  vf_assert(x.on() == !off, "the inner period ends in the state it started from");
  if (off)
    x.r.c.on();
  x.r.c.restore(s1);
  vf_cover("restored");
  vf_assert(x.t.off_cnt_array[x.i] == x.c, "the outer period ends in the state it started from");
  x.others_unchanged();
}

namespace {
alignas(DebugObject) char object_[2][sizeof(DebugObject)];
struct Obj
{
  ThreadSpecificData& t;
  DebugObject& o;
  DebugObject& p;
  int i, j, c, d, ch, n;
  Obj() : t(fresh()), o(*(DebugObject*)object_[0]), p(*(DebugObject*)object_[1])
  {
    i = vf_u8("index");
    j = vf_u8("other index");
    vf_assume(i < LIBCWD_DO_MAX && j < LIBCWD_DO_MAX && i != j);
    c = vf_int("off count");
    d = vf_int("other off count");
    n = vf_u8("channel");
    ch = vf_int("channel off count");
    vf_assume(c > -0x7fffffff && c < 0x7fffffff);
    o.index_ = i;
    p.index_ = j;
    o.initialized_ = p.initialized_ = true;
    o.being_initialized_ = p.being_initialized_ = false;
    t.debug_object_off_array[i] = c;
    t.debug_object_off_array[j] = d;
    t.off_cnt_array[n] = ch;
  }
  ~Obj()
  {
#ifdef VF_NATIVE
    for (int k = 0; k < LIBCWD_DO_MAX; ++k)
      t.debug_object_off_array[k] = 0;
    for (int k = 0; k < LIBCWD_DC_MAX; ++k)
      t.off_cnt_array[k] = 0;
#endif
  }
  int cnt() { return t.debug_object_off_array[i]; }
  void others_unchanged()
  {
    vf_assert(t.debug_object_off_array[j] == d, "another debug object keeps its state");
    vf_assert(t.off_cnt_array[n] == ch, "the channels keep their state");
  }
};
}

VF_CONTRACT(object_off)
{
  Obj x;
  vf_assert(x.o.is_on(x.t) == (x.c == -1) || x.c < -1, "a debug object is on exactly while it was turned on once more than off");
  x.o.off();
  vf_cover("off");
  vf_assert(x.cnt() == x.c + 1, "off() counts one");
  vf_assert(x.c < -1 || !x.o.is_on(x.t), "a debug object is off after off()");
  x.others_unchanged();
}

VF_CONTRACT(object_on)
{
  Obj x;
  x.o.on();
  vf_cover("on");
  vf_assert(x.cnt() == x.c - 1, "on() cancels one off()");
  vf_assert(x.o.is_on(x.t) == (x.c == 0), "a debug object is on when all off() calls are cancelled");
  x.others_unchanged();
}

VF_CONTRACT(object_balance)
{
  Obj x;
  bool was = x.o.is_on(x.t);
  x.o.off();
  x.o.on();
  vf_cover("balanced");
  vf_assert(x.o.is_on(x.t) == was && x.cnt() == x.c, "equally many off() and on() calls restore the state");
  x.others_unchanged();
}

VF_CONTRACT(object_force)
{
  Obj x;
  DebugObject::OnOffState state;
  x.o.force_on(state);
  vf_cover("forced");
  vf_assert(x.o.is_on(x.t), "a forced debug object is on");
  int after = vf_int("after");
  if (vf_bool("unbalanced"))
  {
    vf_assume(after != -1);
    x.t.debug_object_off_array[x.i] = after;
    vf_expect_fatal(true);
    x.o.restore(state);
    vf_assert(false, "unbalanced on() and off() calls between force_on() and restore() are a fatal error");
  }
  x.o.off();
  vf_assert(!x.o.is_on(x.t), "a forced debug object can be turned off");
  x.o.on();
  x.o.restore(state);
  vf_cover("restored");
  vf_assert(x.cnt() == x.c, "restore() restores the state before force_on()");
  x.others_unchanged();
}

VF_CONTRACT(flush)
{
  Obj x;
  int a = vf_int("flush count");
  vf_assume(a >= 0 && a < 0x7fffffff);
  x.o.always_flush_ = a;
  vf_assert(x.o.always_flush_is_on() == (a > 0), "flushing is on exactly while it was turned on more often than off");
  x.o.always_flush_on();
  vf_assert(x.o.always_flush_is_on(), "always_flush_on() turns flushing on");
  x.o.always_flush_off();
  vf_cover("flush");
  vf_assert(x.o.always_flush_is_on() == (a > 0) && x.o.always_flush_ == a, "always_flush_off() cancels one always_flush_on()");
  x.others_unchanged();
}

VF_CONTRACT(conditional)
{
  Chan x;
  bool cond = vf_bool("condition");
  Channel const& c = x.r.c(cond);
  vf_cover("conditional");
  if (cond)
    vf_assert(&c == &x.r.c, "a channel with a true condition is the channel itself");
  else
    vf_assert(&c != &x.r.c && &c == &Channel::off_channel, "a channel with a false condition is the channel that is never on");
  x.others_unchanged();
}
