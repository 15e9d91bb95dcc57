// Contracts for the registry of debug channels (DebugChannels, Channel::initialize in src/debug.cxx).
#include "vf.h"
#include <cstring>
#include <vector>

#ifndef VF_NATIVE
namespace libcwd { class Channel; }
extern "C" size_t vf_pick(char const* name, size_t lo, size_t hi);     // any value from lo to hi, one path for each

// The lists of channels, of any length: one arbitrary element is a real channel, "other" stands for all others.
// In the position of an element relative to the new label (or to the prefix looked for) lies what is known about
// its text: elements before r1 are less, elements from r2 on are greater, the others are equal.
namespace { struct Lists { int access_without_lock; int inserted; }; Lists lists; }
extern "C" { extern int vf_ts_held; int vf_ts_violations, vf_ts_held; }
template <> class std::vector<libcwd::Channel*>
{
 public:
  using value_type = libcwd::Channel*;
  using size_type = size_t;
  size_t n, k;
  libcwd::Channel* probe;
  libcwd::Channel* other;
  libcwd::Channel* cur;
  libcwd::Channel* added;
  size_t other_at;
  size_t added_at;
  vector() { }
  libcwd::Channel*& at_(size_t i)
  {
    vf_assert(i < n, "only elements of the list are used");
    vf_assert(vf_ts_held > 0, "the list is used with its lock held");
    if (i == k)
      cur = probe;
    else
    {
      cur = other;
      other_at = i;
    }
    return cur;
  }
  struct iterator
  {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = libcwd::Channel*;
    using difference_type = std::ptrdiff_t;
    using pointer = libcwd::Channel**;
    using reference = libcwd::Channel*&;
    vector* v;
    size_t i;
    reference operator*() const { return v->at_(i); }
    reference operator[](size_t d) const { return v->at_(i + d); }
    iterator& operator++() { ++i; return *this; }
    iterator& operator--() { --i; return *this; }
    iterator operator++(int) { iterator t = *this; ++i; return t; }
    iterator operator--(int) { iterator t = *this; --i; return t; }
    iterator& operator+=(difference_type d) { i += d; return *this; }
    iterator operator+(difference_type d) const { return {v, i + d}; }
    iterator operator-(difference_type d) const { return {v, i - d}; }
    difference_type operator-(iterator const& o) const { return i - o.i; }
    bool operator==(iterator const& o) const { return i == o.i; }
    bool operator!=(iterator const& o) const { return i != o.i; }
    bool operator<(iterator const& o) const { return i < o.i; }
  };
  using const_iterator = iterator;
  iterator begin() const { return {const_cast<vector*>(this), 0}; }
  iterator end() const { return {const_cast<vector*>(this), n}; }
  iterator cbegin() const { return begin(); }
  iterator cend() const { return end(); }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  libcwd::Channel*& operator[](size_t i) { return at_(i); }
  libcwd::Channel* operator[](size_t i) const { return const_cast<vector*>(this)->at_(i); }
  iterator insert(iterator it, libcwd::Channel* c)
  {
    vf_assert(it.i <= n, "an element is inserted inside the list");
    vf_assert(vf_ts_held > 0, "the list is used with its lock held");
    vf_assert(!added, "only one element is inserted");
    added = c;
    added_at = it.i;
    return it;
  }
  void push_back(libcwd::Channel* c) { insert(end(), c); }
  void emplace_back(libcwd::Channel* c) { insert(end(), c); }
};
#endif

#include "src/debug.cxx"
#include <new>
#include <string>
using namespace libcwd;
using libcwd::_private_::ThreadSpecificData;
using libcwd::_private_::DebugChannels;
using libcwd::_private_::ChannelSets;

#define WIDTHS WIDTH(8) WIDTH(9) WIDTH(10) WIDTH(11) WIDTH(12) WIDTH(13) WIDTH(14) WIDTH(15) WIDTH(16)
#ifdef VF_NATIVE
#include <algorithm>
#define WIDTH(n) VF_CONTRACT(initialize_channel_##n) { } VF_CONTRACT(initialize_hidden_channel_##n) { } VF_CONTRACT(initialize_fatal_channel_##n) { }
WIDTHS
VF_CONTRACT(label_too_long) { }
VF_CONTRACT(once) { }
VF_CONTRACT(find_hit) { }
VF_CONTRACT(find_none) { }
VF_CONTRACT(for_each) { }

// Histories of registrations.
namespace {
struct Label { std::string text; char const* s; };
Label label(char const* name)
{
  static char const letters[] = "ABabZ _\xe9";
  std::string t;
  unsigned kind = vf_u8("kind of label") % 8;
  if (kind == 0)
    t = "WARNING";
  else if (kind == 1)
    t = std::string("WARNINGS").substr(0, vf_u8("length") % 9);
  else
    for (size_t n = vf_u8("length") % (kind == 2 ? 17 : 7); t.size() < n;)
      t += letters[vf_u8("letter") % 8];
  return {t, nullptr};
}
}
VF_CONTRACT(registry)
{
  ThreadSpecificData& t = ThreadSpecificData::instance();
  WST_max_len = 8;
  DebugChannels registry{new DebugChannels::Impl};
  std::memset(t.off_cnt_array, 0, sizeof t.off_cnt_array);
  struct Reg { std::string text; bool visible; Channel* c; FatalChannel* f; };
  std::vector<Reg> regs;
  auto zeroed = [](size_t n) { return std::calloc(n, 1); };
  FatalChannel* fatal[2] = { &channels::dc::core, &channels::dc::fatal };
  char const* texts[2] = { "COREDUMP", "FATAL" };
  size_t longest = 8;
  for (int i = 0; i < 2; ++i)
  {
    registry.initialize_fatal_channel(*fatal[i], texts[i], 1);
    regs.push_back({texts[i], false, nullptr, fatal[i]});
  }
  auto padded = [&](std::string s) { s.resize(longest, ' '); return s; };
  std::vector<void*> blocks;
  for (unsigned n = vf_u8("registrations") % 14; n > 0; --n)
  {
    Label l = label("label");
    unsigned how = vf_u8("how") % 8;
    longest = std::max(longest, l.text.size());
    if (how == 0)
    {
      FatalChannel* f = how % 2 ? fatal[0] : (FatalChannel*)zeroed(sizeof(FatalChannel));
      blocks.push_back(f);
      registry.initialize_fatal_channel(*f, l.text.c_str(), 2);
      vf_assert(std::string(f->get_label()) == padded(l.text), "the label is the given text padded with blanks");
    }
    else
    {
      Channel* c = (Channel*)zeroed(sizeof(Channel));
      blocks.push_back(c);
      registry.initialize_channel(*c, l.text.c_str(), t, how != 1);
      regs.push_back({l.text, how != 1, c, nullptr});
      vf_assert(c->initialized_, "the channel is initialized");
    }
    vf_assert(WST_max_len == longest, "the label width is the length of the longest label");
    std::vector<Channel*> listed;
    registry.for_each([&](Channel& c) { listed.push_back(&c); });
    size_t visible = 0;
    for (Reg const& r : regs)
    {
      vf_assert(padded(r.text) == (r.c ? r.c->get_label() : r.f->get_label()), "the label is the given text padded with blanks");
      if (!r.c)
        continue;
      vf_assert(r.c->index() > 0, "the index is not zero");
      for (Reg const& q : regs)
        vf_assert(!q.c || q.c == r.c || q.c->index() != r.c->index(), "every channel has its own index");
      vf_assert(t.off_cnt_array[r.c->index()] == (r.text == "WARNING" ? -1 : 0), "only WARNING starts turned on");
      visible += r.visible;
      vf_assert(std::count(listed.begin(), listed.end(), r.c) == r.visible, "every visible channel is listed once");
    }
    vf_assert(listed.size() == visible, "only visible channels are listed");
    for (size_t i = 1; i < listed.size(); ++i)
      vf_assert(std::strcmp(listed[i - 1]->get_label(), listed[i]->get_label()) <= 0, "the list is in label order");
    std::string prefix = label("prefix").text;
    if (vf_bool("take a listed one") && !listed.empty())
    {
      prefix = listed[vf_u8("which") % listed.size()]->get_label();
      prefix.resize(vf_u8("length of prefix") % (prefix.size() + 1));
      if (prefix.size() && vf_bool("other case"))
        prefix[0] ^= std::isalpha((unsigned char)prefix[0]) ? 32 : 0;
    }
    Channel* last = nullptr;
    for (Channel* c : listed)
      if (!strncasecmp(c->get_label(), prefix.c_str(), prefix.size()))
        last = c;
    vf_assert(registry.find(prefix.c_str()) == last, "the last listed channel that has the prefix is found");
  }
  delete registry.impl;
  for (int i = 0; i < 2; ++i)
    std::memset((void*)fatal[i], 0, sizeof(FatalChannel));
  for (void* b : blocks)
    std::free(b);
}
#else
VF_CONTRACT(registry) { }

namespace { ThreadSpecificData* the_tsd; }
ThreadSpecificData& ThreadSpecificData::instance() { return *the_tsd; }

namespace {
alignas(Channel) char storage0[sizeof(Channel)], storage1[sizeof(Channel)], storage2[sizeof(Channel)], storage3[sizeof(Channel)], storage4[sizeof(Channel)];
alignas(FatalChannel) char fatal_storage[sizeof(FatalChannel)];
alignas(DebugChannels::Impl) char impl_storage[sizeof(DebugChannels::Impl)];

char label_storage[max_label_len + 1];

size_t width = 8;

struct World
{
  ThreadSpecificData& t;
  Channel& P;           // an arbitrary channel in the list
  Channel& H;           // an arbitrary channel in the hidden list
  Channel& C;           // the new channel
  FatalChannel& F;      // the new fatal channel
  DebugChannels::Impl& impl;
  DebugChannels registry;
  ChannelSets* sets;
  size_t w;             // the label width before
  size_t r1, r2;
  size_t len;
  char* label;
  char p[17], h[17], c[17], f[17];
  int next;
  // A label as it is before: given text padded with blanks.
  void old_label(char* l, char* text)
  {
    for (size_t i = 0; i < max_label_len; ++i)
    {
      text[i] = i < w ? (char)vf_u8("character") : ' ';
      vf_assume(text[i] != 0);
      l[i] = text[i];
    }
    l[w] = 0;
    if (w != max_label_len)
      l[max_label_len] = 0;
  }
  World() : t(*(ThreadSpecificData*)vf_arbitrary(sizeof(ThreadSpecificData))), P(*(Channel*)storage0), H(*(Channel*)storage1), C(*(Channel*)storage2),
            F(*(FatalChannel*)fatal_storage), impl(*(DebugChannels::Impl*)impl_storage), registry{&impl}, sets((ChannelSets*)&impl.channel_sets.data_)
  {
    the_tsd = &t;
    vf_ts_held = vf_ts_violations = 0;
    w = width;
    WST_max_len = w;
    sets->visible_.n = vf_size("channels");
    sets->visible_.k = vf_size("k");
    sets->visible_.probe = &P;
    sets->visible_.other = (Channel*)storage3;
    sets->visible_.added = nullptr;
    sets->hidden_.n = vf_size("hidden channels");
    sets->hidden_.k = vf_size("hidden k");
    sets->hidden_.probe = &H;
    sets->hidden_.other = (Channel*)storage4;
    sets->hidden_.added = nullptr;
    next = sets->next_index_ = vf_u8("next index");
    vf_assume(next < LIBCWD_DC_MAX - 1);
    impl.channel_sets.readers_ = impl.channel_sets.writer_ = 0;
    r1 = vf_size("r1");
    r2 = vf_size("r2");
    vf_assume(r1 <= r2 && r2 <= sets->visible_.n);
    old_label(P.label_, p);
    old_label(H.label_, h);
    old_label(channels::dc::core.label_, c);
    old_label(channels::dc::fatal.label_, f);
    P.index_ = vf_u8("index");
    H.index_ = vf_u8("index");
    vf_assume(0 < P.index_ && P.index_ <= next && 0 < H.index_ && H.index_ <= next && P.index_ != H.index_);
    P.initialized_ = H.initialized_ = true;
    std::memset(storage2, 0, sizeof(Channel));
    std::memset(storage3, 0, sizeof(Channel));
    std::memset(storage4, 0, sizeof(Channel));
    std::memset(fatal_storage, 0, sizeof(FatalChannel));
  }
  bool listed() { return sets->visible_.k < sets->visible_.n; }
  bool hidden() { return sets->hidden_.k < sets->hidden_.n; }
  void give_label()
  {
    len = vf_pick("length", 0, max_label_len);
    label = label_storage;
    for (size_t i = 0; i < len; ++i)
    {
      label[i] = (char)vf_u8("label");
      vf_assume(label[i] != 0);
    }
    label[len] = 0;
  }
  bool padded(char const* l, char const* text)
  {
    bool ok = true;
    size_t now = w < len ? len : w;
    for (size_t i = 0; i < now; ++i)
      ok = ok & (l[i] == text[i]);
    ok = ok & (l[now] == 0);
    for (size_t i = now + 1; i < max_label_len; ++i)
      ok = ok & (l[i] == ' ');
    return ok;
  }
  bool padded_new(char const* l)
  {
    char text[17];
    for (size_t i = 0; i < max_label_len; ++i)
      text[i] = i < len ? label[i] : ' ';
    return padded(l, text);
  }
  bool P_padded() { return !listed() | padded(P.label_, p); }
  bool H_padded() { return !hidden() | padded(H.label_, h); }
  void labels()
  {
    vf_assert(WST_max_len == (w < len ? len : w), "the label width is the length of the longest label");
    vf_assert(P_padded(), "every listed label is its text padded with blanks");
    vf_assert(H_padded(), "every hidden label is its text padded with blanks");
    vf_assert(padded(channels::dc::core.label_, c) && padded(channels::dc::fatal.label_, f), "the labels of the fatal channels are padded with blanks");
    vf_assert(vf_ts_held == 0 && vf_ts_violations == 0, "the registry is unlocked");
  }
};
World* world;
// The three-way comparison of an element of the list with the new label.
int compare(size_t i) { return i < world->r1 ? -1 : i < world->r2 ? 0 : 1; }
bool element(char const* s, size_t* i)
{
  std::vector<Channel*>& v = world->sets->visible_;
  if (s == world->P.label_)
    *i = v.k;
  else if (s == v.other->label_)
    *i = v.other_at;
  else
    return false;
  return true;
}
bool finding, none;

int order(char const* a, char const* b, bool whole)
{
  vf_assert(whole, "whole labels are compared");
  vf_assert(world->P_padded(), "labels are compared when they are padded");
  vf_assert(world->padded_new(world->C.label_), "labels are compared when they are padded");
  size_t i;
  if (b == world->C.label_ && element(a, &i))
    return compare(i);
  if (a == world->C.label_ && element(b, &i))
    return -compare(i);
  vf_assert(false, "a label in the list is compared with the new label");
  return 0;
}
bool known(char const* a)
{
  size_t i;
  return world && (a == world->C.label_ || element(a, &i));
}
}
extern "C" int vf_compare(char const* a, char const* b, size_t n, bool nul);   // strncmp or memcmp
extern "C" int vf_strncmp(char const* a, char const* b, size_t n)
{
  if (known(a) && known(b))
    return order(a, b, n >= WST_max_len);
  return vf_compare(a, b, n, true);
}
extern "C" int vf_strcmp(char const* a, char const* b)
{
  return vf_strncmp(a, b, 17);
}
extern "C" int vf_memcmp(void const* a, void const* b, size_t n)
{
  if (known((char const*)a) && known((char const*)b))
    return order((char const*)a, (char const*)b, n == WST_max_len || n == WST_max_len + 1u);
  return vf_compare((char const*)a, (char const*)b, n, false);
}
// Does the element have the prefix?
extern "C" int vf_strncasecmp(char const* a, char const* b, size_t n)
{
  vf_assert(finding && n == std::strlen(world->label), "a prefix of that length is looked for");
  size_t i;
  vf_assert(a == world->label ? element(b, &i) : b == world->label && element(a, &i), "the prefix is compared with an element of the list");
  if (i == world->r2 && !none)
    return 0;
  int different = vf_int("comparison");
  vf_assume((!none && i < world->r2) || different != 0);
  return different;
}

namespace {
void initialize_channel_contract(bool add)
{
  World x;
  world = &x;
  x.give_label();
  int j = vf_u8("another index"), was = x.t.off_cnt_array[j];
  vf_assume(j != x.next + 1);
  x.registry.initialize_channel(x.C, x.label, x.t, add);
  vf_cover("initialized");
  x.labels();
  vf_assert(x.padded_new(x.C.label_), "the new label is its text padded with blanks");
  vf_assert(x.C.initialized_, "the channel is initialized");
  vf_assert(x.sets->next_index_ == x.next + 1 && x.C.index_ == x.next + 1, "every channel has its own index");
  vf_assert(x.P.index_ <= x.next && x.H.index_ <= x.next && x.P.index_ > 0, "the indices of other channels do not change");
  bool warning = x.len == 7;
  if (warning)
    for (int i = 0; i < 7; ++i)
      warning = warning & (x.label[i] == "WARNING"[i]);
  vf_assert(x.t.off_cnt_array[x.next + 1] == (warning ? -1 : 0), "only WARNING starts turned on");
  vf_assert(x.t.off_cnt_array[j] == was, "other channels are not turned on or off");
  if (add)
  {
    vf_assert(x.sets->visible_.added == &x.C && !x.sets->hidden_.added, "a visible channel is listed");
    size_t at = x.sets->visible_.added_at;
    vf_assert(x.r1 <= at && at <= x.r2, "the list is in label order");
  }
  else
    vf_assert(x.sets->hidden_.added == &x.C && !x.sets->visible_.added, "a hidden channel is not listed");
}
}
namespace {
void initialize_fatal_channel_contract()
{
  World x;
  x.give_label();
  control_flag_t mask = vf_u32("mask");
  x.registry.initialize_fatal_channel(x.F, x.label, mask);
  vf_cover("initialized");
  x.labels();
  vf_assert(x.padded_new(x.F.label_), "the new label is its text padded with blanks");
  vf_assert(x.F.maskbit_ == mask, "the mask is that of the channel");
  vf_assert(x.sets->next_index_ == x.next && !x.sets->visible_.added && !x.sets->hidden_.added, "a fatal channel is not listed");
}
}
#define WIDTH(n) \
  VF_CONTRACT(initialize_channel_##n) { width = n; initialize_channel_contract(true); } \
  VF_CONTRACT(initialize_hidden_channel_##n) { width = n; initialize_channel_contract(false); } \
  VF_CONTRACT(initialize_fatal_channel_##n) { width = n; initialize_fatal_channel_contract(); }
WIDTHS
VF_CONTRACT(label_too_long)
{
  World x;
  x.label = (char*)vf_cstr("label");
  vf_assume(std::strlen(x.label) > max_label_len);
  vf_cover("too long");
  vf_expect_fatal(true);
  if (vf_bool("fatal channel"))
    x.registry.initialize_fatal_channel(x.F, x.label, 1);
  else
    x.registry.initialize_channel(x.C, x.label, x.t, vf_bool("visible"));
  vf_assert(false, "a label that is too long is a fatal error");
}
extern "C" DebugChannels const* vf_instance() { return &world->registry; }
extern "C" void vf_initialize_channel(DebugChannels const*, Channel* c, char const*, ThreadSpecificData*, bool) { c->initialized_ = true; ++lists.inserted; }
extern "C" void vf_initialize_fatal_channel(DebugChannels const*, FatalChannel* c, char const*, control_flag_t m) { c->maskbit_ = m; ++lists.inserted; }
VF_CONTRACT(once)
{
  World x;
  world = &x;
  lists.inserted = 0;
  x.C.initialized_ = vf_bool("initialized");
  bool was = x.C.initialized_;
  x.C.NS_initialize("X", x.t, vf_bool("visible"));
  vf_assert(lists.inserted == !was, "a channel is registered once");
  x.F.maskbit_ = vf_u32("mask");
  was = x.F.maskbit_;
  lists.inserted = 0;
  x.F.NS_initialize("X", 1);
  vf_cover("registered");
  vf_assert(lists.inserted == !was, "a fatal channel is registered once");
}
VF_CONTRACT(find_hit)
{
  World x;
  world = &x;
  finding = true;
  x.label = (char*)vf_cstr("label");
  // The last element that has the prefix.
  vf_assume(x.sets->visible_.k == x.r2 && x.r2 < x.sets->visible_.n);
  Channel* found = x.registry.find(x.label);
  vf_cover("found");
  vf_assert(found == &x.P, "the last listed channel that has the prefix is found");
  vf_assert(vf_ts_held == 0 && vf_ts_violations == 0, "the registry is unlocked");
}
VF_CONTRACT(find_none)
{
  World x;
  world = &x;
  finding = true;
  x.label = (char*)vf_cstr("label");
  none = true;
  Channel* found = x.registry.find(x.label);
  (void)found;
  vf_cover("not found");
  vf_assert(found == nullptr, "a prefix that no channel has is not found");
  vf_assert(vf_ts_held == 0 && vf_ts_violations == 0, "the registry is unlocked");
}
namespace {
size_t calls;
void callback(Channel& c, void* data)
{
  vf_assert(data == world, "the data is passed on");
  size_t i;
  vf_assert(element(c.label_, &i) && i == calls, "every channel in the list is visited once, in order");
  vf_assert(vf_ts_held > 0, "the list is visited with its lock held");
  ++calls;
}
}
VF_CONTRACT(for_each)
{
  World x;
  world = &x;
  calls = 0;
  x.registry.for_each_impl(callback, world);
  vf_cover("visited");
  vf_assert(calls == x.sets->visible_.n, "every channel in the list is visited once, in order");
  vf_assert(vf_ts_held == 0 && vf_ts_violations == 0, "the registry is unlocked");
}
#endif
