// Contracts for what the demangler does with names that it cannot decode (src/demangle.cxx).
#include "vf.h"
#include "src/demangle.cxx"
#include <climits>
#include <cstring>
#include <string>

#ifndef VF_NATIVE
namespace {
using S = __gnu_cxx::demangler::session<std::allocator<char>>;

// What is in a string: pieces of text, the first of which may be arbitrary.
struct Piece { char const* p; size_t n; };
struct Text
{
  void const* s;
  bool arbitrary;
  unsigned n;
  Piece pieces[4];
};
Text texts[2];
unsigned many;
unsigned nothing;

Text& text(void const* s)
{
  for (unsigned i = 0; i < many; ++i)
    if (texts[i].s == s)
      return texts[i];
  vf_assert(many < 2, "only the given string is changed");
  Text& t = texts[many++];
  t.s = s;
  t.arbitrary = false;
  t.n = 0;
  return t;
}
void add(void const* s, char const* p, size_t n)
{
  Text& t = text(s);
  vf_assert(t.n < 4, "the text is put together from few parts");
  t.pieces[t.n++] = {p, n};
}
void set(void const* s, char const* p, size_t n)
{
  Text& t = text(s);
  t.arbitrary = false;
  t.n = 0;
  add(s, p, n);
}
bool is(void const* s, char const* p, size_t n)
{
  Text& t = text(s);
  return !t.arbitrary && t.n == 1 && t.pieces[0].p == p && t.pieces[0].n == n;
}
char const* input;
size_t length;
bool decoded, called;
union Output { std::string s; Output() { } ~Output() { } };
Output output;
}
extern "C" {
void vf_string(std::string*) { ++nothing; }
std::string& vf_assign_n(std::string* s, char const* p, size_t n) { set(s, p, n); return *s; }
std::string& vf_assign(std::string* s, char const* p) { set(s, p, std::strlen(p)); return *s; }
std::string& vf_append_n(std::string* s, char const* p, size_t n) { add(s, p, n); return *s; }
std::string& vf_append(std::string* s, char const* p) { add(s, p, std::strlen(p)); return *s; }
std::string& vf_append_s(std::string* s, std::string const* o) { add(s, o->_M_dataplus._M_p, o->_M_string_length); return *s; }
void vf_clear(std::string* s) { Text& t = text(s); t.arbitrary = false; t.n = 0; }
int vf_encoding(std::string& out, char const* in, int len, __gnu_cxx::demangler::implementation_details const&)
{
  vf_assert((in == input + 2) & (len >= 0) & ((size_t)len == length - 2), "the name behind the prefix is decoded");
  vf_assert(&out == &output.s, "the name is decoded into the given string");
  called = true;
  text(&out).arbitrary = true;
  int r = vf_u32("decoded");
  vf_assume((r == INT_MIN) | ((r >= 0) & (r <= len)));
  decoded = r == len;
  return r;
}
bool vf_type(S* s, std::string& out, void*)
{
  vf_assert((s->str_ == input) & ((size_t)s->maxpos_ + 1 == length), "the name is decoded");
  vf_assert(&out == &output.s, "the name is decoded into the given string");
  called = true;
  text(&out).arbitrary = true;
  int p = vf_u32("position");
  vf_assume((p >= 0) & (p <= s->maxpos_ + 1));
  s->pos_ = p;
  bool r = s->result_ = vf_bool("decoded");
  decoded = r & (p == s->maxpos_ + 1);
  return r;
}
// The result of the function behind the public one.
void vf_demangle(char const* in, std::string& out)
{
  vf_assert(in == input, "the given name is decoded");
  vf_assert((void*)&out != (void*)&output.s, "the name is decoded into an empty string");
  called = true;
  out._M_dataplus._M_p = const_cast<char*>(vf_cstr("result"));
  out._M_string_length = std::strlen(out._M_dataplus._M_p);
  texts[1].pieces[3] = {out._M_dataplus._M_p, out._M_string_length};
}
}
static void any_name()
{
  input = vf_cstr("name");
  length = std::strlen(input);
  vf_assume(length < (1u << 30));
  many = 0;
}

VF_CONTRACT(symbol)
{
  any_name();
  bool const z = input[0] == '_' && input[1] == 'Z';
  bool const g = !z && length >= 11 && !std::strncmp(input, "_GLOBAL__", 9) && (input[9] == 'D' || input[9] == 'I') && input[10] == '_';
  libcwd::_private_::demangle_symbol(input, output.s);
  Text& t = text(&output.s);
  vf_assert(many == 1, "only the output is changed");
  vf_assert(called == z, "only encoded names are decoded");
  vf_cover("returned");
  if (g)
  {
    vf_assert(!t.arbitrary && t.n == 2, "there is a text and the name that it is about");
    vf_assert(t.pieces[0].n == (input[9] == 'D' ? 28u : 29u) && !std::strncmp(t.pieces[0].p, input[9] == 'D' ? "global destructors keyed to " : "global constructors keyed to ", t.pieces[0].n), "global constructors and destructors are described");
    vf_assert(t.pieces[1].p == input + 11 && t.pieces[1].n == length - 11, "the name behind the prefix is shown");
    vf_cover("global");
  }
  else if (z && decoded)
  {
    vf_assert(t.arbitrary && t.n == 0, "the decoded name is left as it is");
    vf_cover("decoded");
  }
  else
  {
    vf_assert(is(&output.s, input, length), "a name that cannot be decoded is the output, unchanged");
    vf_cover("not decoded");
  }
}
VF_CONTRACT(type)
{
  any_name();
  libcwd::_private_::demangle_type(input, output.s);
  Text& t = text(&output.s);
  vf_assert(many == 1, "only the output is changed");
  vf_assert(called, "types are decoded");
  if (decoded)
  {
    vf_assert(t.arbitrary && t.n == 0, "the decoded name is left as it is");
    vf_cover("decoded");
  }
  else
  {
    vf_assert(is(&output.s, input, length), "a name that cannot be decoded is the output, unchanged");
    vf_cover("not decoded");
  }
}
static void append(void (*demangle)(char const*, std::string&))
{
  any_name();
  vf_cover("started");
  demangle(input, output.s);
  Piece const& r = texts[1].pieces[3];
  vf_assert(called, "the name is decoded");
  vf_assert(is(&output.s, r.p, r.n), "the result is added behind what was in the output, and nothing else");
  vf_cover("returned");
}
VF_CONTRACT(append_symbol) { append([](char const* i, std::string& o) { libcwd::demangle_symbol(i, o); }); }
VF_CONTRACT(append_type) { append([](char const* i, std::string& o) { libcwd::demangle_type(i, o); }); }
#else
VF_CONTRACT(symbol) { } VF_CONTRACT(type) { } VF_CONTRACT(append_symbol) { } VF_CONTRACT(append_type) { }
#include "names.h"
// Whole names: the output starts with what was there, and where the decoder did not accept all of the name that name follows.
VF_CONTRACT(names)
{
  using namespace libcwd::_private_;
  std::string name = any_pieces();
  std::string prior(vf_u8("prior") % 40, 'p');
  char const* in = name.c_str();
  std::string out = prior, decoded;
  implementation_details id(0);
  libcwd::demangle_type(in, out);
  session_type s(in, name.size(), id);
  bool ok = s.decode_type(decoded) && s.pos_ > s.maxpos_;
  vf_assert(out == prior + (ok ? decoded : name), "a type that cannot be decoded is shown as it is");
  out = prior;
  decoded.clear();
  libcwd::demangle_symbol(in, out);
  if (name.compare(0, 9, "_GLOBAL__") != 0)
  {
    ok = name.compare(0, 2, "_Z") == 0 && session_type::decode_encoding(decoded, in + 2, name.size() - 2, id) == (int)name.size() - 2;
    vf_assert(out == prior + (ok ? decoded : name), "a symbol that cannot be decoded is shown as it is");
  }
  vf_cover("demangled");
}
#endif
