// Contracts for the type information (type_info.h, src/type_info.cxx).
#include "src/type_info.cxx"
#include "vf.h"
#include <cstring>
#include <string>
#include <cstdlib>

// The length of the array bounds ("A3_A4_") with which an encoded type starts.
extern "C" size_t vf_spec_array_end(char const* s, size_t i);
#ifdef VF_NATIVE
extern "C" size_t vf_spec_array_end(char const* s, size_t i)
{
  while (s[i] == 'A')
  {
    while (s[i] && s[i] != '_') ++i;
    vf_assume(s[i] == '_');             // The compiler terminates every array bound.
    ++i;
  }
  return i;
}
#endif

static bool ref_or_cv(char c) { return c == 'R' || c == 'O' || c == 'V' || c == 'K'; }

static void exact_name(unsigned const qn)
{
  // The name of T without reference and top-level cv-qualifiers: any text that does not start with those.
  char const* stripped = vf_cstr("typeid(T).name()");
  size_t len = std::strlen(stripped);
  size_t bounds = vf_spec_array_end(stripped, 0);
  vf_assume(!ref_or_cv(stripped[0]));
  vf_assume(!ref_or_cv(stripped[bounds]));
  // The reference and cv-qualifiers of T.
  static char const quals[] = "ROVK";
  char q[3], e[2];
  for (unsigned i = 0; i < 3; ++i) q[i] = quals[vf_u8("qualifier") & 3];
  // Those of the elements, for an array.
  unsigned en = vf_u8("number of element qualifiers");
  vf_assume(en <= 2);
  if (bounds == 0) en = 0;
  for (unsigned i = 0; i < 2; ++i) e[i] = quals[2 + (vf_u8("element qualifier") & 1)];
  // The name of libcwd_type_info_exact<T>.
  char const* any = vf_cstr("typeid(libcwd_type_info_exact<T>).name()");
  size_t const start = 25 + qn + bounds + en;
#ifdef VF_NATIVE
  std::string t = "22libcwd_type_info_exactI" + std::string(q, qn) + std::string(stripped, bounds) + std::string(e, en);
  char first = any[0];
  vf_assume(first && !ref_or_cv(first));
  t += any;
  char* encap = (char*)std::malloc(t.size() + 1);
  std::memcpy(encap, t.c_str(), t.size() + 1);
#else
  char const* encap = any;
  vf_assume(std::strlen(encap) > start);
  for (unsigned i = 0; i < qn; ++i) vf_assume(encap[25 + i] == q[i]);
  vf_assume(!ref_or_cv(encap[25 + qn]));
  for (unsigned i = 0; i < en; ++i) vf_assume(encap[25 + qn + bounds + i] == e[i]);
  vf_assume(!ref_or_cv(encap[start]));
#endif
  size_t k = vf_size("position");
  vf_assume(k < len);
#ifndef VF_NATIVE
  if (k < bounds) vf_assume(encap[25 + qn + k] == stripped[k]);
#endif
  char const* r = libcwd::_private_::extract_exact_name(encap, stripped);
  vf_cover("returned");
  vf_assert(r[qn + en + len] == 0, "the exact name has the length of the qualifiers and the type name together");
  for (unsigned i = 0; i < qn; ++i)
    vf_assert(r[i] == q[i], "the exact name starts with the reference and cv-qualifiers");
  for (unsigned i = 0; i < en; ++i)
    vf_assert(r[qn + bounds + i] == e[i], "the cv-qualifiers of the elements of an array follow its bounds");
  if (k < bounds)
    vf_assert(r[qn + k] == stripped[k], "the array bounds follow the qualifiers");
  else
    vf_assert(r[qn + en + k] == stripped[k], "the type name follows the qualifiers");
#ifdef VF_NATIVE
  std::free(encap);
#endif
  delete [] (char*)r;
}

VF_CONTRACT(exact_name_0) { exact_name(0); }
VF_CONTRACT(exact_name_1) { exact_name(1); }
VF_CONTRACT(exact_name_2) { exact_name(2); }
VF_CONTRACT(exact_name_3) { exact_name(3); }

// make_label: the demangled text, kept for ever.
static char const* demangled_in;
static char const* demangled_text;
static size_t demangled_len;
static bool armed;
extern "C" void vf_demangle_type(char const* in, std::string& out)
{
  demangled_in = in;
#ifdef VF_NATIVE
  out += demangled_text;
#else
  vf_assert(out._M_string_length == 0, "the demangler is given an empty string");
  out._M_dataplus._M_p = const_cast<char*>(demangled_text);
  out._M_string_length = demangled_len;
  out._M_local_buf[0] = 1;
  out._M_allocated_capacity = demangled_len;
#endif
}
#ifdef VF_NATIVE
namespace libcwd::_private_ { void demangle_type(char const* in, std::string& out) { vf_demangle_type(in, out); } }
#endif

VF_CONTRACT(label)
{
  char const* in = vf_cstr("encoded name");
  demangled_text = vf_cstr("demangled name");
  demangled_len = std::strlen(demangled_text);
  size_t k = vf_size("position");
  vf_assume(k < demangled_len);
  char want = demangled_text[k];
  char const* r = libcwd::_private_::make_label(in);
  vf_cover("returned");
  vf_assert(demangled_in == in, "the name that is demangled is the one that was given");
  vf_assert(r != demangled_text, "the label has its own storage");
  vf_assert(r[demangled_len] == 0, "the label is as long as the demangled name");
  vf_assert(r[k] == want, "the label is the demangled name");
  delete [] (char*)r;
}

VF_CONTRACT(unknown)
{
  libcwd::TypeInfo t(0);
  vf_cover("returned");
  vf_assert(t.size() == 0 && t.ref_size() == 0 && t.name() == nullptr && std::strcmp(t.demangled_name(), "<unknown type>") == 0, "the unknown type has no size and no name");
}
