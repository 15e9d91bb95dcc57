// Contracts for the Dout macro itself (macro_Libcwd_macros.h): the start and finish of a message are replaced by
// functions that count their calls; the statements are those of a program.
#include "cwd_sys.h"
#include <ostream>
#include <iostream>
#include "libcwd/debug.h"
#include "vf.h"
using namespace libcwd;
using libcwd::_private_::ThreadSpecificData;

#ifndef VF_NATIVE
namespace { ThreadSpecificData* the_tsd; }
ThreadSpecificData& ThreadSpecificData::instance() { return *the_tsd; }
#endif

namespace {
bool armed;
int started, finished, evaluated, printed, order;
unsigned mask_at_start;
char const* label_at_start;
std::ostream* os_;
DebugObject_ThreadSpecificData* tsd_of_object;
DebugObject* object;
}

// A message that was started is finished; the operators are under contract in C20.cxx.
void DebugObject_ThreadSpecificData::start(DebugObject& debug_object, ChannelSetData& channel_set, LIBCWD_TSD_PARAM)
{
  if (!armed)
  {
    current_bufferstream = &std::cerr;
    return;
  }
  vf_assert(this == tsd_of_object && &debug_object == object, "the message is started on the debug object of the statement");
  vf_assert(started == finished && evaluated == 0, "the message is started once, before anything is evaluated");
  mask_at_start = channel_set.mask;
  label_at_start = channel_set.label;
  ++started;
  current_bufferstream = os_;
}
void DebugObject_ThreadSpecificData::finish(DebugObject& debug_object, ChannelSetData&, LIBCWD_TSD_PARAM)
{
  if (!armed)
    return;
  vf_assert(this == tsd_of_object && &debug_object == object, "the message is finished on the debug object of the statement");
  vf_assert(started == finished + 1 && printed == started, "the message is finished once, after the text was printed");
  ++finished;
}

namespace {
struct Probe { };
std::ostream& operator<<(std::ostream& os, Probe const&)
{
  vf_assert(&os == os_, "the text goes to the stream of the message");
  ++printed;
  return os;
}
Probe probe()
{
  vf_assert(started == finished + 1, "the expression is evaluated while the message is being written");
  ++evaluated;
  return Probe();
}
}

namespace mychannels { namespace dc {
union RawChannel { Channel c; RawChannel() { } ~RawChannel() { } };
RawChannel ra, rb;
Channel& a = ra.c;
Channel& b = rb.c;
libcwd::AlwaysChannel always;
} }
#define Stmt(cntrl) LibcwDout(mychannels, *object, cntrl, probe())

namespace {
alignas(DebugObject) char object_[sizeof(DebugObject)];
struct World
{
  ThreadSpecificData* t;
  int off, ca, cb;
  World()
  {
#ifdef VF_NATIVE
    t = &ThreadSpecificData::instance();
    os_ = &std::cout;
#else
    t = the_tsd = (ThreadSpecificData*)vf_arbitrary(sizeof(ThreadSpecificData));
    os_ = vf_sink();
#endif
    tsd_of_object = (DebugObject_ThreadSpecificData*)vf_arbitrary(sizeof(DebugObject_ThreadSpecificData));
    tsd_of_object->current_bufferstream = nullptr;
    object = (DebugObject*)object_;
    int i = 1;
    object->index_ = i;
    t->debug_object_array[i] = tsd_of_object;
    off = vf_int("object off count");
    t->debug_object_off_array[i] = off;
    int a = vf_u8("index a"), b = vf_u8("index b");
    vf_assume(a > 0 && b > 0 && a != b);
    ca = vf_int("off count a");
    cb = vf_int("off count b");
    mychannels::dc::ra.c.index_ = a;
    mychannels::dc::rb.c.index_ = b;
    mychannels::dc::ra.c.initialized_ = mychannels::dc::rb.c.initialized_ = true;
    t->off_cnt_array[a] = ca;
    t->off_cnt_array[b] = cb;
    started = finished = evaluated = printed = 0;
    armed = true;
  }
  ~World()
  {
    armed = false;
#ifdef VF_NATIVE
    for (int k = 1; k < LIBCWD_DO_MAX; ++k)
    {
      t->debug_object_array[k] = nullptr;
      t->debug_object_off_array[k] = 0;
    }
    for (int k = 0; k < LIBCWD_DC_MAX; ++k)
      t->off_cnt_array[k] = 0;
#endif
  }
  bool object_on() { return off < 0; }
  bool a_on() { return ca < 0; }
  bool b_on() { return cb < 0; }
  void check(bool on)
  {
    vf_cover("statement");
    if (on)
      vf_assert(started == 1 && finished == 1 && evaluated == 1 && printed == 1, "output that is on is evaluated, started and finished exactly once");
    else
      vf_assert(started == 0 && finished == 0 && evaluated == 0 && printed == 0, "muted output evaluates nothing and writes nothing");
    vf_assert(t->debug_object_off_array[object->index_] == off && t->off_cnt_array[mychannels::dc::a.index_] == ca &&
              t->off_cnt_array[mychannels::dc::b.index_] == cb, "a statement turns nothing on or off");
  }
};
}

VF_CONTRACT(one_channel)
{
  World x;
  Stmt(dc::a);
  x.check(x.object_on() && x.a_on());
  if (started)
    vf_assert(mask_at_start == 0 && label_at_start == mychannels::dc::a.label_, "the message has the label of its channel");
}

VF_CONTRACT(two_channels)
{
  World x;
  Stmt(dc::a|dc::b);
  x.check(x.object_on() && (x.a_on() || x.b_on()));
  if (started)
    vf_assert(mask_at_start == 0 && label_at_start == (x.a_on() ? mychannels::dc::a.label_ : mychannels::dc::b.label_), "the label is that of the first channel that is on");
}

VF_CONTRACT(two_channels_and_flag)
{
  World x;
  unsigned flag = vf_u32("flag");
  Stmt(dc::a|dc::b|flag);
  x.check(x.object_on() && (x.a_on() || x.b_on()));
  if (started)
    vf_assert(mask_at_start == flag, "the message has the flags of the statement");
}

VF_CONTRACT(flag_between_channels)
{
  World x;
  unsigned flag = vf_u32("flag");
  Stmt(dc::a|flag|dc::b);
  x.check(x.object_on() && (x.a_on() || x.b_on()));
  if (started)
    vf_assert(mask_at_start == flag, "the message has the flags of the statement");
}

VF_CONTRACT(conditional_channel)
{
  World x;
#ifndef VF_NATIVE
  // Nothing ever turns on the channel that is always off.
  *const_cast<int*>(&Channel::off_channel.index_) = 0;
  x.t->off_cnt_array[0] = 0;
#endif
  int never = Channel::off_channel.index_;
  vf_assume(mychannels::dc::a.index_ != never && mychannels::dc::b.index_ != never);
  bool cond = vf_bool("condition");
  Stmt(dc::a(cond));
  x.check(x.object_on() && cond && x.a_on());
}

VF_CONTRACT(always)
{
  World x;
  Stmt(dc::always);
  x.check(x.object_on());
}

// The expression of a second statement is independent of the first.
VF_CONTRACT(two_statements)
{
  World x;
  Stmt(dc::a);
  int n = x.object_on() && x.a_on();
  vf_assert(started == n && finished == n && evaluated == n && printed == n, "muted output evaluates nothing and writes nothing");
  evaluated = 0;
  vf_assert(started == finished, "every message is finished");
  int s = started, p = printed;
  Stmt(dc::b|dc::a);
  vf_cover("second");
  n = x.object_on() && (x.a_on() || x.b_on());
  vf_assert(started == s + n && finished == started && evaluated == n && printed == p + n, "output that is on is evaluated exactly once");
}
