// Contracts for libcwd::DebugString (src/debug.cxx, include/libcwd/DebugString.inl.h).
#include "src/debug.cxx"
#include "vf.h"
#include <new>
using libcwd::DebugString;

// Storage without construction: DebugString is initialised by NS_internal_init.
union Raw { DebugString ds; Raw() { } ~Raw() { } };

VF_CONST(default_capacity, offsetof(DebugString, default_capacity_))

// Any state the representation invariant allows.
static void any(DebugString& ds, size_t k, char& old_k)
{
  size_t cap = vf_size("capacity"), def = vf_size("default capacity"), size = vf_size("size");
  vf_assume(64 <= def && def <= cap && size <= cap);
  ds.str_ = vf_heap("string", cap + 1);
  ds.size_ = size;
  ds.capacity_ = cap;
  ds.default_capacity_ = def;
  vf_assume(ds.str_[size] == 0);
  old_k = k < size ? ds.str_[k] : 0;
}
static void invariant(DebugString const& ds)
{
  vf_assert(ds.default_capacity_ >= 64 && ds.default_capacity_ <= ds.capacity_, "the capacity is at least the default capacity");
  vf_assert(ds.size() <= ds.capacity(), "the size is at most the capacity");
  vf_assert(ds.c_str()[ds.size()] == 0, "the string is NUL-terminated at its size");
  // The allocation really is as large as capacity says.
  (void)*(char volatile*)(ds.str_ + ds.capacity_);
}

VF_CONTRACT(init)
{
  Raw r;
  char const* text = vf_cstr("text");
  size_t len = vf_size("len"), k = vf_size("k");
  vf_assume(len <= strlen(text) && k < len);
  r.ds.NS_internal_init(text, len);
  vf_cover("initialised");
  invariant(r.ds);
  vf_assert(r.ds.size() == len, "the size is the length of the text");
  vf_assert(r.ds.c_str()[k] == text[k], "the string is the text");
  r.ds.deinitialize();
}

VF_CONTRACT(init_empty)
{
  Raw r;
  char const* text = vf_cstr("text");
  r.ds.NS_internal_init(text, 0);
  vf_cover("initialised");
  invariant(r.ds);
  vf_assert(r.ds.size() == 0, "the string is empty");
}

VF_CONTRACT(assign)
{
  Raw r;
  size_t k = vf_size("k"), len = vf_size("len");
  char old_k;
  any(r.ds, k, old_k);
  char const* text = vf_cstr("text");
  vf_assume(len <= strlen(text));
  r.ds.assign(text, len);
  vf_cover("assigned");
  invariant(r.ds);
  vf_assert(r.ds.size() == len, "after assign the size is the length of the text");
  if (k < len) { vf_cover("character"); vf_assert(r.ds.c_str()[k] == text[k], "after assign the string is the text"); }
}

VF_CONTRACT(append)
{
  Raw r;
  size_t k = vf_size("k"), len = vf_size("len");
  char old_k;
  any(r.ds, k, old_k);
  size_t size = r.ds.size();
  char const* text = vf_cstr("text");
  vf_assume(len <= strlen(text));
  r.ds.append(text, len);
  vf_cover("appended");
  invariant(r.ds);
  vf_assert(r.ds.size() == size + len, "append adds the length of the text to the size");
  if (k < size) vf_assert(r.ds.c_str()[k] == old_k, "append keeps the old text in front");
  else if (k < size + len) { vf_cover("new character"); vf_assert(r.ds.c_str()[k] == text[k - size], "append puts the text behind the old text"); }
}

VF_CONTRACT(prepend)
{
  Raw r;
  size_t k = vf_size("k"), len = vf_size("len");
  char old_k;
  any(r.ds, k, old_k);
  size_t size = r.ds.size();
  char const* text = vf_cstr("text");
  vf_assume(len <= strlen(text));
  r.ds.prepend(text, len);
  vf_cover("prepended");
  invariant(r.ds);
  vf_assert(r.ds.size() == size + len, "prepend adds the length of the text to the size");
  if (k < size) { vf_cover("old character"); vf_assert(r.ds.c_str()[len + k] == old_k, "prepend keeps the old text behind the new"); }
  if (k < len) vf_assert(r.ds.c_str()[k] == text[k], "prepend puts the text in front");
}

VF_CONTRACT(reserve)
{
  Raw r;
  size_t k = vf_size("k"), n = vf_size("n");
  char old_k;
  any(r.ds, k, old_k);
  size_t size = r.ds.size();
  r.ds.reserve(n);
  vf_cover("reserved");
  invariant(r.ds);
  vf_assert(r.ds.size() == size, "reserve does not change the size");
  vf_assert(n < size || r.ds.capacity() >= n, "reserve makes room for n characters");
  if (k < size) vf_assert(r.ds.c_str()[k] == old_k, "reserve does not change the text");
}

VF_CONTRACT(copy)
{
  Raw src;
  char const* text = vf_cstr("text");
  size_t def = vf_size("default capacity"), k = vf_size("k");
  src.ds.str_ = const_cast<char*>(text);
  src.ds.size_ = src.ds.capacity_ = strlen(text);
  src.ds.default_capacity_ = def;
  vf_assume(64 <= def && def <= src.ds.capacity_);
  Raw r;
  new (&r.ds) DebugString(src.ds);
  vf_cover("copied");
  invariant(r.ds);
  vf_assert(r.ds.size() == src.ds.size(), "a copy has the size of the original");
  vf_assert(r.ds.c_str() != src.ds.c_str(), "a copy has its own storage");
  if (k < src.ds.size()) vf_assert(r.ds.c_str()[k] == text[k], "a copy has the text of the original");
}

VF_CONTRACT(swallow)
{
  Raw a, b;
  size_t k = vf_size("k");
  char a_k, b_k;
  any(a.ds, k, a_k);
  any(b.ds, k, b_k);
  size_t size = b.ds.size();
  a.ds.internal_swallow(b.ds);
  vf_cover("swallowed");
  invariant(a.ds);
  vf_assert(a.ds.size() == size, "swallow takes over the size");
  if (k < size) vf_assert(a.ds.c_str()[k] == b_k, "swallow takes over the text");
}
