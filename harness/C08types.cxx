// Contracts for type_info_of: which name and which sizes are recorded for a type.
#include "src/type_info.cxx"
#include "vf.h"
#include <cstring>
#include <cstdlib>

namespace {
struct S { int a[3]; virtual ~S(); };
S::~S() { }
struct Empty { };
union U { double d; char c[24]; };
struct Incomplete;
enum E : unsigned short { e0 };

// The contracts of make_label and extract_exact_name: they are called with these names, and return some text.
char const *label_in, *exact_1, *exact_2;
int labels, exacts;
char const label_text[] = "label", exact_text[] = "exact";
}
extern "C" char const* vf_make_label(char const* n) { label_in = n; ++labels; return label_text; }
extern "C" char const* vf_extract(char const* a, char const* b) { exact_1 = a; exact_2 = b; ++exacts; return exact_text; }
#ifdef VF_NATIVE
namespace libcwd::_private_ {
#define make_label(n) make_label(n)
}
#endif

#ifdef VF_NATIVE
// Natively the real functions are used.
template<typename T> bool label_ok(libcwd::TypeInfo const& i, char const* name)
{
  char const* l = libcwd::_private_::make_label(name);
  return std::strcmp(l, i.demangled_name()) == 0;
}
#endif

static void reset() { label_in = exact_1 = exact_2 = nullptr; labels = exacts = 0; }

// type_info_of<T>(): T itself, with its qualifiers.
template<typename T>
static void exact(size_t size, size_t ref_size)
{
  reset();
  libcwd::TypeInfo const& i = libcwd::type_info_of<T>();
  vf_assert(i.size() == size, "size() is the size of the type");
  vf_assert(i.ref_size() == ref_size, "ref_size() is the size of what it points to, or 0");
#ifdef VF_NATIVE
  char const* n = libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<T>).name(), typeid(T).name());
  vf_assert(std::strcmp(i.name(), n) == 0, "name() is the exact name");
  vf_assert(label_ok<T>(i, n), "demangled_name() is the demangled form of name()");
#else
  vf_assert(exacts == 1 && exact_1 == typeid(libcwd_type_info_exact<T>).name() && exact_2 == typeid(T).name(), "the exact name is extracted from the names of this type");
  vf_assert(labels == 1 && label_in == exact_text && i.name() == exact_text && i.demangled_name() == label_text, "demangled_name() is the demangled form of name()");
#endif
  char const *name = i.name(), *dem = i.demangled_name();
  libcwd::TypeInfo const& j = libcwd::type_info_of<T>();
  vf_assert(&i == &j && j.name() == name && j.demangled_name() == dem && j.size() == size && j.ref_size() == ref_size, "asking again gives the same information");
}

// type_info_of(object): top level qualifiers are ignored.
template<typename T>
static void object(size_t size, size_t ref_size)
{
  reset();
  T* p = (T*)vf_arbitrary(sizeof(T));
  libcwd::TypeInfo const& i = libcwd::type_info_of(*p);
  vf_assert(i.size() == size, "size() is the size of the type of the object");
  vf_assert(i.ref_size() == ref_size, "ref_size() is the size of what the object points to, or 0");
#ifdef VF_NATIVE
  vf_assert(std::strcmp(i.name(), typeid(T).name()) == 0, "name() is the name of the type of the object");
  vf_assert(label_ok<T>(i, typeid(T).name()), "demangled_name() is the demangled form of name()");
#else
  vf_assert(exacts == 0 && i.name() == typeid(T).name(), "name() is the name of the type of the object");
  vf_assert(labels == 1 && label_in == typeid(T).name() && i.demangled_name() == label_text, "demangled_name() is the demangled form of name()");
#endif
  char const *name = i.name(), *dem = i.demangled_name();
  libcwd::TypeInfo const& j = libcwd::type_info_of(*p);
  vf_assert(&i == &j && j.name() == name && j.demangled_name() == dem && j.size() == size && j.ref_size() == ref_size, "asking again gives the same information");
}

VF_CONTRACT(exact_types)
{
  exact<S>(sizeof(S), 0);
  exact<S const>(sizeof(S), 0);
  exact<S&>(sizeof(S), 0);
  exact<S const&>(sizeof(S), 0);
  exact<Empty>(1, 0);
  exact<U volatile>(24, 0);
  exact<S[5]>(5 * sizeof(S), 0);
  exact<E>(2, 0);
  vf_cover("returned");
}
VF_CONTRACT(exact_pointers)
{
  exact<S*>(8, sizeof(S));
  exact<S const*>(8, sizeof(S));
  exact<S**>(8, 8);
  exact<U*>(8, 24);
  exact<E*>(8, 2);
  exact<Empty*>(8, 1);
  exact<Incomplete*>(8, 0);
  exact<Incomplete**>(8, 8);
  exact<S(*)[7]>(8, 7 * sizeof(S));
  exact<void*>(8, 0);
  vf_cover("returned");
}
VF_CONTRACT(object_types)
{
  object<S>(sizeof(S), 0);
  object<U>(24, 0);
  object<Empty>(1, 0);
  object<E>(2, 0);
  object<S[5]>(5 * sizeof(S), 0);
  object<S*>(8, sizeof(S));
  object<S const*>(8, sizeof(S));
  object<U**>(8, 8);
  object<Incomplete*>(8, 0);
  object<Empty*>(8, 1);
  object<S(*)[7]>(8, 7 * sizeof(S));
  object<void*>(8, 0);
  vf_cover("returned");
}
