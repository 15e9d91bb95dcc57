// Contract for RcFile::process_channels (src/utils/rcfile.cxx): a list of masks of any length.
// A std::string is a window on the text of the list here; the members of std::string that are used are replaced by
// their documented effect on such a window (anything else is not decided).
#include "src/utils/rcfile.cxx"
#include "vf.h"
#include <cstring>
using namespace libcwd;
using libcwd::_private_::ThreadSpecificData;

#ifdef VF_NATIVE
VF_CONTRACT(process_channels) { }
#else
namespace { ThreadSpecificData* the_tsd; }
ThreadSpecificData& ThreadSpecificData::instance() { return *the_tsd; }
_private_::DebugChannels const& _private_::DebugChannels::instance() { return *(DebugChannels const*)the_tsd; }

namespace {
union RawChannel { Channel c; RawChannel() { } ~RawChannel() { } };
union RawRc { RcFile r; RawRc() { } ~RawRc() { } };
union RawString { std::string s; RawString() { } ~RawString() { } };
char* text;
size_t length;
size_t cursor;              // What comes before this was applied.
char *upper_from, *upper_to;
Channel* channel;
int expected_action, applied;
bool separators(char const* s) { return s[0] == ',' && s[1] == ' ' && s[2] == '\t' && s[3] == '\n' && s[4] == '\v' && !s[5]; }
}

extern "C" {
// The first position at or behind i that does not, respectively does, hold a separator, or the end of the text.
size_t vf_next_word(size_t i, size_t length);
size_t vf_word_end(size_t i, size_t length);
void vf_undecided();
bool vf_same_object(void const*, void const*);
size_t vf_named(size_t);      // its argument

size_t vf_find_first_not_of(std::string const* s, char const* set, size_t pos)
{
  if (!vf_same_object(s->_M_dataplus._M_p, text)) vf_undecided();
  size_t from = (s->_M_dataplus._M_p - text) + pos;
  if (!separators(set) || pos > s->_M_string_length || s->_M_dataplus._M_p + s->_M_string_length != text + length) vf_undecided();
  size_t at = vf_next_word(from, length);
  return at == length ? std::string::npos : vf_named(at - from + pos);
}
size_t vf_find_first_of(std::string const* s, char const* set, size_t pos)
{
  if (!vf_same_object(s->_M_dataplus._M_p, text)) vf_undecided();
  size_t from = (s->_M_dataplus._M_p - text) + pos;
  if (!separators(set) || pos > s->_M_string_length || s->_M_dataplus._M_p + s->_M_string_length != text + length) vf_undecided();
  size_t at = vf_word_end(from, length);
  return at == length ? std::string::npos : vf_named(at - from + pos);
}
std::string* vf_erase(std::string* s, size_t pos, size_t n)
{
  if (!vf_same_object(s->_M_dataplus._M_p, text)) vf_undecided();
  size_t size = s->_M_string_length;
  vf_assert(pos <= size, "erase starts inside the string");
  if (pos == 0)
  {
    if (n > size) n = size;
    s->_M_dataplus._M_p += n;
    s->_M_string_length = size - n;
  }
  else
  {
    if (n < size - pos) vf_undecided();
    s->_M_string_length = pos;
  }
  return s;
}
void vf_copy(std::string* s, std::string const* from)
{
  if (!vf_same_object(from->_M_dataplus._M_p, text)) vf_undecided();
  s->_M_dataplus._M_p = from->_M_dataplus._M_p;
  s->_M_string_length = from->_M_string_length;
}
void vf_dispose(std::string*) { }
char* vf_transform(char* first, char* last, char* out, int (*f)(int))
{
  if (f != (int (*)(int))toupper || !vf_same_object(first, text) || !vf_same_object(out, text) || out != first) vf_undecided();
  upper_from = first;
  upper_to = last;
  return last;
}
void vf_for_each(void const*, void (*callback)(Channel&, void*), void* data) { callback(*channel, data); }
// The contract of process_channel (C04.cxx) says what happens to the channel.
void vf_process_channel(RcFile*, Channel* c, std::string const* mask, int action)
{
  vf_assert(c == channel, "the mask is applied to the channel");
  vf_assert(action == expected_action, "the action is that of the line");
  // The code may do it differently; the check of whole files still sees whether it does it right.
  if (!upper_from || !vf_same_object(mask->_M_dataplus._M_p, text) || !vf_same_object(upper_from, text)) vf_undecided();
  size_t from = vf_next_word(cursor, length), to = vf_word_end(from, length);
  vf_assert(mask->_M_dataplus._M_p == text + from, "the masks of the list are applied in order, each exactly once");
  vf_assert(mask->_M_string_length == to - from, "a mask ends before the next separator");
  vf_assert(upper_from == text + from, "masks do not depend on the case");
  vf_assert(upper_to == text + to, "the end of a mask does not depend on the case");
  cursor = to;
  upper_from = upper_to = nullptr;
  vf_cover("applied");
}
}

VF_CONTRACT(process_channels)
{
  the_tsd = (ThreadSpecificData*)vf_arbitrary(sizeof(ThreadSpecificData));
  libcw_do.index_ = 0;
  the_tsd->debug_object_array[0] = (DebugObject_ThreadSpecificData*)vf_arbitrary(sizeof(DebugObject_ThreadSpecificData));
  RawRc rc;
  RawChannel r;
  channel = &r.c;
  length = vf_size("length");
  vf_assume(length < 0x7fffffff);
  text = vf_buf("list", length);
  cursor = 0;
  expected_action = vf_u8("action");
  vf_assume(expected_action <= RcFile::off);
  RawString list;
  list.s._M_dataplus._M_p = text;
  list.s._M_string_length = length;
  rc.r.process_channels(list.s, (RcFile::action_nt)expected_action);
  vf_cover("done");
  vf_assert(vf_next_word(cursor, length) == length, "no mask of the list is forgotten");
}
#endif
