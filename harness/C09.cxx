// Contracts for the demangler (include/cwd_demangle.h, src/demangle.cxx).
//
// The decoder is a template over its allocator. Here it is instantiated with an allocator of its own, whose strings
// only remember whether they are empty and whose vectors are described at one arbitrary element: the elements have the property that
// is asserted when they are added.
#include "vf.h"
#include <climits>
#include <cstring>
#include <string>
#include <vector>

#ifndef VF_NATIVE
template <class T> struct VA
{
  using value_type = T;
  VA() = default;
  template <class U> VA(VA<U> const&) { }
  T* allocate(size_t);
  void deallocate(T*, size_t);
};
namespace {
uint64_t positions;             // the input has this many characters
uint64_t const many = (1 << 24) - 1;
}

// Strings.
template <> class std::basic_string<char, std::char_traits<char>, VA<char>>
{
 public:
  uint64_t n;                   // not 0 when the string is not empty
  char last;
  basic_string() : n(0) { }
  basic_string(char const* s) { set(s); }
  basic_string(basic_string const& s) : n(s.n) { }
  void set(char const* s)
  {
    vf_assert(s != nullptr, "only strings are appended");
    n = *s != 0;
  }
  basic_string& operator=(basic_string const& s) { n = s.n; return *this; }
  basic_string& operator=(char const* s) { set(s); return *this; }
  basic_string& add(uint64_t m)
  {
    n |= m;
    return *this;
  }
  basic_string& operator+=(char) { return add(1); }
  basic_string& operator+=(char const* s) { return add(basic_string(s).n); }
  basic_string& operator+=(basic_string const& s) { return add(s.n); }
  void clear() { n = 0; }
  size_t size() const { return n ? n + vf_u32("length") : 0; }
  bool empty() const { return n == 0; }
  struct reverse { char* p; char& operator*() const { return *p; } };
  reverse rbegin()
  {
    vf_assert(n != 0, "the last character of a string that has one");
    last = vf_u8("character");
    return {&last};
  }
  friend basic_string operator+(basic_string s, char const* t) { s += t; return s; }
  friend basic_string operator+(char const* s, basic_string const& t) { basic_string r(s); r += t; return r; }
  friend basic_string operator+(basic_string s, basic_string const& t) { s += t; return s; }
};
namespace {
using String = std::basic_string<char, std::char_traits<char>, VA<char>>;
template <class T> void make(T* e);
template <class T> void check(T const& e);
}
// Vectors.
template <class T> class std::vector<T, VA<T>>
{
 public:
  uint64_t n;
  vector() : n(0) { }
  size_t size() const { return n; }
  void push_back(T const& v)
  {
    check(v);
    vf_assume(n < many);
    ++n;
  }
  struct scratch
  {
    alignas(T) char b[sizeof(T)];
    T& get() { make((T*)b); return *(T*)b; }
  };
  scratch s;
  T& operator[](size_t i)
  {
    vf_assert(i < n, "only elements of the vector are used");
    return s.get();
  }
  struct const_reverse_iterator
  {
    uint64_t i, n;
    mutable scratch s;
    const_reverse_iterator() : i(0), n(0) { }
    const_reverse_iterator(uint64_t i_, uint64_t n_) : i(i_), n(n_) { }
    const_reverse_iterator(const_reverse_iterator const& o) : i(o.i), n(o.n) { }
    const_reverse_iterator& operator=(const_reverse_iterator const& o) { i = o.i; n = o.n; return *this; }
    T const& operator*() const
    {
      vf_assert(i < n, "only elements of the vector are used");
      return s.get();
    }
    T const* operator->() const { return &**this; }
    const_reverse_iterator& operator++()
    {
      vf_assert(i < n, "only elements of the vector are used");
      ++i;
      return *this;
    }
    bool operator==(const_reverse_iterator const& o) const { return i == o.i; }
    bool operator!=(const_reverse_iterator const& o) const { return i != o.i; }
  };
  const_reverse_iterator rbegin() const { return {0, n}; }
  const_reverse_iterator rend() const { return {n, n}; }
};
#endif

#include "src/demangle.cxx"

#ifndef VF_NATIVE
using namespace __gnu_cxx::demangler;
namespace {
using S = session<VA<char>>;
using Q = qualifier_list<VA<char>>;
using E = qualifier<VA<char>>;

// A position that may be gone to.
bool position(int p) { return (p >= 0) & ((uint64_t)p <= positions + 3); }
template <> void make(int* e) { *e = (int)vf_u32("position"); vf_assume(position(*e)); }
template <> void check(int const& e) { vf_assert(position(e), "only positions in the input are stored"); }
template <> void make(Substitution* e)
{
  e->start_pos = vf_u32("start");
  uint32_t t = vf_u32("type of substitution");
  vf_assume(t <= unscoped_template_name);
  e->type = (substitution_nt)t;
  e->number_of_prefixes = vf_u32("prefixes");
  vf_assume(position(e->start_pos) & (e->number_of_prefixes >= 0));
}
template <> void check(Substitution const& e)
{
  vf_assert(position(e.start_pos), "only positions in the input are stored");
  vf_assert((uint32_t)e.type <= unscoped_template_name, "substitutions have a known type");
  vf_assert(e.number_of_prefixes >= 0, "substitutions have a number of prefixes");
}
template <> void make(E* e)
{
  new (e) E(vf_u32("start"), (param_qualifier_nt)0, String(), vf_bool("in substitution"));
  e->qualifier1_ = vf_u8("qualifier");
  e->qualifier2_ = vf_u8("qualifier");
  e->qualifier3_ = vf_u8("qualifier");
  e->count_ = vf_u8("count");
  e->optional_type_.n = vf_u64("type");
  vf_assume(position(e->start_pos_));
}
template <> void check(E const& e) { vf_assert(position(e.start_pos_), "only positions in the input are stored"); }

struct Id : __gnu_cxx::demangler::implementation_details
{
  // The longest real is "-d.dddddddddddddddddde-308", see print_to_with_precision.
  bool decode_real(char* output, unsigned long* input, size_t size_of_real) const override
  {
    vf_assert(size_of_real == 4 || size_of_real == 8 || size_of_real == 16, "reals have a known size");
    char c = 0;
    for (int i = 0; i < 2; ++i)
      c |= (char)input[i];
    if (vf_bool("not decoded"))
      return false;
    output[0] = c;
    output[27] = 0;
    return true;
  }
};
union Raw { S s; Raw() { } ~Raw() { } };
Raw raw;
union RawId { Id d; RawId() { } ~RawId() { } } raw_id;
Id& id = raw_id.d;
char const* text;
int started, depth[3];
bool limited;
uint64_t given[2];
S* current;
int const limit = 1 << 30;

bool counters(S const& s)
{
  return (s.inside_template_args_ >= 0) & (s.inside_template_args_ < limit) & (s.inside_type_ >= 0) & (s.inside_type_ < limit) &
    (s.inside_substitution_ >= 0) & (s.inside_substitution_ < limit) & (s.template_arg_pos_offset_ >= 0);
}
bool same_depth(S const& s, int const* d) { return (s.inside_template_args_ == d[0]) & (s.inside_type_ == d[1]) & (s.inside_substitution_ == d[2]); }
bool deeper(S const& s, int const* d) { return (s.inside_template_args_ >= d[0]) & (s.inside_type_ >= d[1]) & (s.inside_substitution_ >= d[2]); }
void keep_depth(S const& s, int* d) { d[0] = s.inside_template_args_; d[1] = s.inside_type_; d[2] = s.inside_substitution_; }
void any_fields(S& s)
{
  s.pos_ = vf_u32("position");
  s.inside_template_args_ = vf_u32("inside template args");
  s.inside_type_ = vf_u32("inside type");
  s.inside_substitution_ = vf_u32("inside substitution");
  s.saw_destructor_ = vf_bool("saw destructor");
  s.name_is_cdtor_ = vf_bool("cdtor");
  s.name_is_template_ = vf_bool("template");
  s.name_is_conversion_operator_ = vf_bool("conversion");
  s.template_args_need_space_ = vf_bool("need space");
  s.function_name_.n = vf_u64("function name");
  s.template_arg_pos_.n = vf_u64("template args");
  s.substitutions_pos_.n = vf_u64("substitutions");
  s.template_arg_pos_offset_ = vf_u32("offset");
  vf_assume(position(s.pos_) & counters(s) & (s.template_arg_pos_.n <= many) & (s.substitutions_pos_.n <= many));
}
// A session somewhere in the middle of its input, with an arbitrary past.
S& any_session()
{
  positions = vf_u32("length");
  vf_assume((positions > 0) & (positions < (1u << 30)));
  char* t = vf_buf("input", positions + 1);
  vf_assume(t[positions] == 0);
  text = t;
  new (&id) Id;
  new (&raw.s) S(text, (int)positions, id);
  id.style_ = vf_u32("style");
  any_fields(raw.s);
  started = raw.s.pos_;
  keep_depth(raw.s, depth);
  current = &raw.s;
  return raw.s;
}
String given_string(int i)
{
  String s;
  given[i] = s.n = vf_u64("string");
  return s;
}
String any_string()
{
  String s;
  s.n = vf_u64("string");
  return s;
}
void done(S& s, bool r, String const& output, String const& more)
{
  vf_assert(r == s.result_, "failures are remembered");
  vf_assert(!r | ((s.pos_ > started) & ((uint64_t)s.pos_ <= positions)), "the position advances and stays in the input");
  vf_assert((uint64_t)s.maxpos_ + 1 == positions, "the input stays the same");
  vf_assert(!r | same_depth(s, depth), "the depth is as before");
  vf_assert(r | deeper(s, depth), "the depth is at least what it was before");
  vf_assert(((output.n != 0) | (given[0] == 0)) & ((more.n != 0) | (given[1] == 0)), "the output is added to");
  vf_cover("decoded");
}
void grow(String* s)
{
  uint64_t n = s->n;
  s->n = vf_u64("output");
  vf_assume((n == 0) | (s->n != 0));
}
// What every decoder does, as seen by those that call it.
bool decoder(S* s, String* output, String* more = nullptr, Q* q = nullptr, bool number = false)
{
  if (!current)
  {
    current = s;
    vf_assert((s->str_ == text) & ((uint64_t)s->maxpos_ + 1 == positions) & counters(*s), "the session is for the given input");
  }
  vf_assert(s == current, "the same session is used");
  vf_assert(position(s->pos_), "the position is in the input");
  vf_assert(s->result_, "nothing is decoded after a failure");
  vf_assert(!limited | ((s->inside_type_ <= 1000) & (s->inside_substitution_ <= 1000)), "template parameters are nested to a limited depth");
  int p = s->pos_, d[3];
  keep_depth(*s, d);
  any_fields(*s);
  grow(output);
  if (more)
    grow(more);
  if (q)
  {
    vf_assert(&q->demangler_ == s, "the qualifiers belong to the session");
    q->printing_suppressed_ = vf_bool("suppressed");
  }
  bool r = vf_bool("decoded");
  s->result_ = r;
  vf_assume(!r | ((s->pos_ > p) & ((uint64_t)s->pos_ <= positions) & same_depth(*s, d)));
  vf_assume(r | deeper(*s, d));
  vf_assume(!number | same_depth(*s, d));
  return r;
}
union U { Q q; U() { } ~U() { } } u;
Q* any_qualifiers(S& s)
{
  new (&u.q) Q(s);
  u.q.printing_suppressed_ = vf_bool("suppressed");
  u.q.qualifier_starts_.n = vf_u64("qualifiers");
  vf_assume(u.q.qualifier_starts_.n <= many);
  return &u.q;
}
}
#define D1(name) extern "C" bool vf_##name(S* s, String& output) { return decoder(s, &output); } \
  VF_CONTRACT(name) { S& s = any_session(); String output = given_string(0), more; done(s, s.decode_##name(output), output, more); }
D1(bare_function_type) D1(builtin_type) D1(call_offset) D1(class_enum_type) D1(expression) D1(literal) D1(local_name) D1(operator_name)
D1(source_name) D1(template_args) D1(unqualified_name) D1(unscoped_name) D1(special_name)
#define DN(name) extern "C" bool vf_##name(S* s, String& output) { return decoder(s, &output, nullptr, nullptr, true); } \
  VF_CONTRACT(name) { S& s = any_session(); String output = given_string(0), more; bool r = s.decode_##name(output); vf_assert(same_depth(s, depth), "the depth is as before"); done(s, r, output, more); }
DN(number) DN(non_negative_decimal_integer)
#define D2(name) extern "C" bool vf_##name(S* s, String& output, String& qualifiers) { return decoder(s, &output, &qualifiers); } \
  VF_CONTRACT(name) { S& s = any_session(); String output = given_string(0), more = given_string(1); done(s, s.decode_##name(output, more), output, more); }
D2(name) D2(nested_name)
#define DQ(name) extern "C" bool vf_##name(S* s, String& output, Q* q) { return decoder(s, &output, nullptr, q); } \
  VF_CONTRACT(name) { limited = #name[0] == 't' && #name[1] == 'e'; S& s = any_session(); String output = given_string(0), more; done(s, s.decode_##name(output, nullptr), output, more); } \
  VF_CONTRACT(name##_qualified) { limited = #name[0] == 't' && #name[1] == 'e'; S& s = any_session(); String output = given_string(0), more; done(s, s.decode_##name(output, any_qualifiers(s)), output, more); }
DQ(type) DQ(substitution) DQ(template_param)
extern "C" bool vf_type_with_postfix(S* s, String& prefix, String& postfix, Q* q) { return decoder(s, &prefix, &postfix, q); }
VF_CONTRACT(type_with_postfix) { S& s = any_session(); String output = given_string(0), more = given_string(1); done(s, s.decode_type_with_postfix(output, more, nullptr), output, more); }
VF_CONTRACT(type_with_postfix_qualified) { S& s = any_session(); String output = given_string(0), more = given_string(1); done(s, s.decode_type_with_postfix(output, more, any_qualifiers(s)), output, more); }
extern "C" bool vf_real(S* s, String& output, size_t size_of_real)
{
  vf_assert(size_of_real == 4 || size_of_real == 8 || size_of_real == 16, "reals have a known size");
  return decoder(s, &output);
}
VF_CONTRACT(real) { S& s = any_session(); String output = given_string(0), more; done(s, s.decode_real(output, (size_t)4 << vf_u8("size") % 3), output, more); }
extern "C" int vf_encoding(String& output, char const* input, int len, implementation_details const& d)
{
  grow(&output);
  vf_assert(&d == &id, "the details are passed on");
  vf_assert((len <= 0) | (input + len == text + positions), "the rest of the input is decoded");
  int r = vf_u32("decoded");
  vf_assume((r == INT_MIN) | ((len > 0) & (r >= 0) & (r <= len)));
  return r;
}
VF_CONTRACT(encoding)
{
  positions = vf_u32("length");
  vf_assume(positions < (1u << 30));
  char* t = vf_buf("input", positions + 1);
  vf_assume(t[positions] == 0);
  text = t;
  String output = any_string();
  current = nullptr;
  int len = vf_bool("empty") ? -(int)(vf_u8("beyond") & 3) : (int)positions;
  int r = S::decode_encoding(output, text, len, id);
  vf_assert((r == INT_MIN) | ((len > 0) & (r >= 0) & (r <= len)), "the number of decoded characters is returned");
  vf_cover("decoded");
}
extern "C" void vf_qualifiers(Q const* q, String& prefix, String& postfix, bool)
{
  S* s = current;
  vf_assert(&q->demangler_ == s, "the qualifiers belong to the session");
  grow(&prefix);
  grow(&postfix);
  q->printing_suppressed_ = false;
  uint64_t n = s->substitutions_pos_.n;
  s->substitutions_pos_.n = vf_u64("substitutions");
  vf_assume((s->substitutions_pos_.n >= n) & (s->substitutions_pos_.n <= many));
}
VF_CONTRACT(qualifiers)
{
  S& s = any_session();
  Q* q = any_qualifiers(s);
  String prefix = any_string(), postfix = any_string();
  int p = s.pos_, n = s.inside_substitution_;
  q->decode_qualifiers(prefix, postfix, vf_bool("member function pointer"));
  vf_assert((s.pos_ == p) & (s.inside_substitution_ == n) & s.result_, "the position stays the same");
  vf_cover("decoded");
}
extern "C" void vf_KVrA(Q const* q, String& prefix, String& postfix, int cvq, std::vector<E, VA<E>>::const_reverse_iterator const& i)
{
  vf_assert(!(cvq & cvq_A) | ((i.i < i.n) & (i.n == q->qualifier_starts_.n)), "there is an array");
  vf_assert(cvq >= 0, "the arrays were counted");
  grow(&prefix);
  grow(&postfix);
}
VF_CONTRACT(KVrA)
{
  S& s = any_session();
  Q* q = any_qualifiers(s);
  String prefix = any_string(), postfix = any_string();
  std::vector<E, VA<E>>::const_reverse_iterator i(vf_u64("array"), q->qualifier_starts_.n);
  int cvq = vf_u32("cvq");
  vf_assume((cvq >= 0) & (!(cvq & cvq_A) | (i.i < i.n)));
  int p = s.pos_;
  q->decode_KVrA(prefix, postfix, cvq, i);
  vf_assert((s.pos_ == p) & s.result_, "the position stays the same");
  vf_cover("decoded");
}
#endif
#ifdef VF_NATIVE
#include <cstdlib>
#define E(name) VF_CONTRACT(name) { }
E(bare_function_type) E(builtin_type) E(call_offset) E(class_enum_type) E(expression) E(literal) E(local_name) E(number) E(operator_name)
E(source_name) E(template_args) E(unqualified_name) E(unscoped_name) E(non_negative_decimal_integer) E(special_name) E(name) E(nested_name)
E(type) E(substitution) E(template_param) E(type_qualified) E(substitution_qualified) E(template_param_qualified)
E(type_with_postfix) E(type_with_postfix_qualified) E(real) E(encoding) E(qualifiers) E(KVrA)
#undef E

#include "names.h"
// Each name is in an allocation of its own so that the sanitizers see every access outside it.
VF_CONTRACT(names)
{
  std::string t = any_pieces();
  unsigned n = t.size() + 1;
  char* in = (char*)std::malloc(n);
  std::memcpy(in, t.c_str(), n);
  std::string type, symbol;
  libcwd::demangle_type(in, type);
  libcwd::demangle_symbol(in, symbol);
  vf_cover("demangled");
  std::free(in);
}

// Every real fits in what decode_real reserves for it.
VF_CONTRACT(reals)
{
  unsigned long words[4] = {};
  size_t size = (size_t)4 << vf_u8("size") % 3;
  for (unsigned i = 0; i < size / 4; ++i)
  {
    words[i] = vf_u32("word");
    if (vf_bool("small"))
      words[i] &= 0x8000000f;
  }
  char* buf = (char*)std::malloc(28);
  if (libcwd::_private_::implementation_details(0).decode_real(buf, words, size))
    vf_assert(std::strlen(buf) < 28, "a real is shorter than its buffer");
  else
    vf_assert(size == 16, "reals of known sizes are decoded");
  vf_cover("printed");
  std::free(buf);
}
#endif
