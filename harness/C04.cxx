// Contracts for the runtime configuration file (src/utils/rcfile.cxx): one mask and one channel.
#include "src/utils/rcfile.cxx"
#include "vf.h"
#include <cstring>
#include <new>
using namespace libcwd;
using libcwd::_private_::ThreadSpecificData;

#ifndef VF_NATIVE
namespace { ThreadSpecificData* the_tsd; }
ThreadSpecificData& ThreadSpecificData::instance() { return *the_tsd; }
#endif

namespace {
union RawChannel { Channel c; RawChannel() { } ~RawChannel() { } };
union RawRc { RcFile r; RawRc() { } ~RawRc() { } };
union RawString { std::string s; RawString() { } ~RawString() { } };

char upper(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 'a' + 'A') : c; }

// What is being asked, and the answer.
bool armed, matched, switched;
int asked, visits;
char const* mask_data;
size_t mask_length;
char name[max_label_len + 1];
size_t name_length;
ThreadSpecificData* tsd;
Channel* channel;
int count;
}

#ifndef VF_NATIVE
// The contract of match (C03): the result depends on the mask and on the name only.
extern "C" bool vf_match(char const* mask, size_t masklen, char const* label)
{
  vf_assert(mask == mask_data && masklen == mask_length, "the whole mask is matched");
  for (size_t i = 0; i <= name_length; ++i)
    vf_assert(label[i] == name[i], "the mask is matched with the upper case label up to the first blank");
  ++asked;
  return matched;
}
// The contracts of Channel::is_on, Channel::on and Channel::off (C12).
extern "C" bool vf_is_on(Channel const* c)
{
  vf_assert(c == channel, "only the state of the channel matters");
  return count < 0;
}
extern "C" void vf_on(Channel* c)
{
  vf_assert(c == channel, "no other channel is switched");
  vf_assert(count >= 0, "a channel that is on is not turned on");
  --count;
}
extern "C" void vf_off(Channel* c)
{
  vf_assert(c == channel, "no other channel is switched");
  ++count;
}
// The contract of DebugChannels::for_each_impl (C15): every registered channel once; here any one of them.
extern "C" void vf_for_each(void const*, void (*callback)(Channel&, void*), void* data)
{
  ++visits;
  callback(*channel, data);
}
_private_::DebugChannels const& _private_::DebugChannels::instance() { return *(DebugChannels const*)tsd; }
extern "C" int vf_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 'a' + 'A' : c; }
extern "C" int vf_memcmp(void const* a, void const* b, size_t n)
{
  int r = 0;
  while (n-- > 0)
  {
    int x = ((unsigned char const*)a)[n], y = ((unsigned char const*)b)[n];
    r = x == y ? r : x - y;
  }
  return r;
}
extern "C" void* vf_memchr(void const* s, int c, size_t n)
{
  char const* p = (char const*)s;
  for (size_t i = 0; i < n; ++i)
    if (p[i] == (char)c) return (void*)(p + i);
  return nullptr;
}
#endif

namespace {
// Any label; true if it is that of ELFUTILS.
bool take_label(Channel& c)
{
  // The label ends at one of the 17 positions, its first blank is at or before that end.
  char const* l = vf_buf("label", max_label_len);
  size_t len = 0;
  while (len < max_label_len && l[len]) ++len;
  name_length = 0;
  while (name_length < len && l[name_length] != ' ') ++name_length;
  bool elf = name_length == 8;
  for (size_t k = 0; k < len; ++k)
  {
    c.label_[k] = l[k];
    name[k] = k < name_length ? upper(l[k]) : 0;
    if (k < 8) elf &= name[k] == "ELFUTILS"[k];
  }
  c.label_[len] = 0;
  name[len] = 0;
  // No other channel has that name.
  for (size_t k = 0; k < 8; ++k)
    vf_assume(!elf || c.label_[k] == "ELFUTILS"[k]);
  if (elf)
    vf_cover("the label of ELFUTILS");
  return elf;
}
}

VF_CONTRACT(process_channel)
{
#ifdef VF_NATIVE
  tsd = &ThreadSpecificData::instance();
  static RcFile* const rc = new RcFile;
  RcFile& f = *rc;
#else
  tsd = the_tsd = (ThreadSpecificData*)vf_arbitrary(sizeof(ThreadSpecificData));
  libcw_do.index_ = 0;
  tsd->debug_object_off_array[0] = 0;
  channels::dc::rcfile.index_ = LIBCWD_DC_MAX - 1;
  RawRc raw;
  RcFile& f = raw.r;
#endif
  RawChannel r;
  channel = &r.c;
  // The index only serves to find the off count (C12).
  int const i = 7;
  r.c.index_ = i;
  r.c.initialized_ = true;
  bool elf = take_label(r.c);
  int c = vf_int("off count");
  vf_assume(-1 <= c && c < 0x7fffffff);
  count = c;
  f.elfutils_on_ = vf_bool("elfutils");
  bool flag = f.elfutils_on_;
  int action = vf_u8("action");
  vf_assume(action <= RcFile::off);
  matched = vf_bool("matched");
  asked = 0;
#ifdef VF_NATIVE
  // The counterexample says whether the mask matches, not which mask it is.
  vf_assume(c < 1000000);
  tsd->off_cnt_array[i] = c;
  std::string mask(matched ? name : "#no");
  f.process_channel(r.c, mask, (RcFile::action_nt)action);
#else
  mask_data = vf_cstr("mask");
  mask_length = std::strlen(mask_data);
  RawString m;
  m.s._M_dataplus._M_p = (char*)mask_data;
  m.s._M_string_length = mask_length;
  f.process_channel(r.c, m.s, (RcFile::action_nt)action);
  vf_assert(asked == 1, "every channel is matched with the mask");
#endif
  vf_cover("processed");
  bool was = elf ? flag : c < 0;
  bool want = action == RcFile::on || (action == RcFile::toggle && !was);
#ifdef VF_NATIVE
  count = tsd->off_cnt_array[i];
  tsd->off_cnt_array[i] = 0;
#endif
  int now = count;
  if (!matched || want == was)
  {
    vf_cover("left alone");
    vf_assert(now == c && f.elfutils_on_ == flag, "a channel that does not match or is in the requested state already is left alone");
  }
  else if (elf)
  {
    vf_cover("elfutils");
    vf_assert(f.elfutils_on_ == want, "ELFUTILS is switched");
    vf_assert(now == (!want && c < 0 ? c + 1 : c), "ELFUTILS is turned off at once, and on after the file is read");
  }
  else
  {
    vf_cover("switched");
    vf_assert(now == (want ? -1 : c + 1), "a channel that matches is switched");
    vf_assert(f.elfutils_on_ == flag, "no other channel is switched");
  }
}

// Turning all channels on or off: what happens to any one of them.
static void all_channels(bool on)
{
#ifdef VF_NATIVE
  static RcFile* const rc = new RcFile;
  RcFile& f = *rc;
  // The registered channels, all in the same state.
  tsd = &ThreadSpecificData::instance();
  int c = vf_int("off count");
  vf_assume(-1 <= c && c < 1000000);
  channel = &channels::dc::elfutils;
  f.elfutils_on_ = vf_bool("elfutils");
  bool elf = vf_bool("is elfutils");
  ForAllDebugChannels(tsd->off_cnt_array[debugChannel.index_] = c;
                      if ((std::strcmp(debugChannel.get_label(), "ELFUTILS") == 0 || std::strncmp(debugChannel.get_label(), "ELFUTILS ", 9) == 0) == elf) channel = &debugChannel);
  if (on) f.set_all_channels_on(); else f.set_all_channels_off(false);
  count = tsd->off_cnt_array[channel->index_];
  ForAllDebugChannels(tsd->off_cnt_array[debugChannel.index_] = 0);
#else
  tsd = the_tsd = (ThreadSpecificData*)vf_arbitrary(sizeof(ThreadSpecificData));
  libcw_do.index_ = 0;
  tsd->debug_object_off_array[0] = 0;
  channels::dc::rcfile.index_ = LIBCWD_DC_MAX - 1;
  RawRc raw;
  RcFile& f = raw.r;
  RawChannel r;
  channel = &r.c;
  r.c.index_ = 7;
  bool elf = on && take_label(r.c);
  int c = vf_int("off count");
  vf_assume(-1 <= c && c < 0x7fffffff);
  count = c;
  visits = 0;
  f.elfutils_on_ = vf_bool("elfutils");
  if (on) f.set_all_channels_on(); else f.set_all_channels_off(false);
  vf_assert(visits == 1, "all channels are visited once");
#endif
  vf_cover("all");
  if (on)
    vf_assert(count == (elf ? c : -1), "all channels but ELFUTILS are turned on at once");
  else
    vf_assert(count == (c < 0 ? c + 1 : c), "all channels are turned off, those that are off are left alone");
  vf_assert(f.elfutils_on_ == on, "ELFUTILS is switched too");
}

VF_CONTRACT(all_on) { all_channels(true); }
VF_CONTRACT(all_off) { all_channels(false); }
