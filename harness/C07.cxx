// Contracts for libcwd::Location (src/location.cxx, include/libcwd/Location.h, Location.inl.h).
#include "src/location.cxx"
#include "libcwd/Location.inl.h"
#include "vf.h"
#include <new>
#include <cstring>
using libcwd::Location;
using libcwd::ObjectFileName;
using libcwd::lockable_auto_ptr;
using libcwd::dwarf::LocationLookupResult;

// --- the lookup layer, under contract: it may answer anything its interface allows.
namespace {
char const fname_a[] = "_Z1av", fname_b[] = "_Z1bv", fname_c[] = "_Z1cv";
bool armed, ready, has_object, has_symbol;
void const* the_pc;
uintptr_t the_lbase;
int looked_up;
LocationLookupResult result[9];
bool have[9];
alignas(ObjectFileName) char object_name_[sizeof(ObjectFileName)];
ObjectFileName const& object_name() { return reinterpret_cast<ObjectFileName const&>(object_name_); }

struct Symbol : libcwd::dwarf::SymbolRangeInterface
{
  char const* name() const override { return fname_a; }
  LocationLookupResult lookup_location(uintptr_t addr, uintptr_t lbase) const override
  {
    uintptr_t skip = addr - (uintptr_t)the_pc;
    vf_assert(skip <= 8, "only the address itself and the 8 bytes after it are looked up");
    vf_assert(lbase == the_lbase, "the symbol is asked with the load base of its object");
    if (!have[skip])
    {
      have[skip] = true;
      LocationLookupResult& r = result[skip];
      r.physical_function_name = fname_a + (vf_u8("physical") & 1);
      r.effective_function_name = skip == 0 && vf_bool("inlined") ? fname_a + 2 + (vf_u8("inlined in") & 1) : nullptr;
      if (skip == 0 && !vf_bool("file found"))
        r.filepath = nullptr, r.known = false;
      else
        r.filepath = skip ? "other" : vf_cstr("path"), r.known = vf_bool("known");
      r.line = vf_u32("line");
    }
    return result[skip];
  }
};
Symbol the_symbol;
struct Object : libcwd::dwarf::ObjectFileInterface
{
  Object(uintptr_t b) : ObjectFileInterface(b) { }
  ObjectFileName const& get_object_file() const override { return object_name(); }
  libcwd::dwarf::SymbolRangeInterface const* find_symbol(uintptr_t addr) const override
  {
    vf_assert(addr == (uintptr_t)the_pc, "the symbol of the given address is asked for");
    return has_symbol ? &the_symbol : nullptr;
  }
};
Object* the_object;
}
namespace libcwd::dwarf {
bool ensure_initialization(LIBCWD_TSD_PARAM) { return !armed || ready; }
ObjectFileInterface const* find_object_file(void const* addr, LIBCWD_TSD_PARAM)
{
  if (!armed) return nullptr;
  vf_assert(addr == the_pc, "the object file of the given address is asked for");
  return has_object ? the_object : nullptr;
}
}
#ifndef VF_NATIVE
namespace libcwd { char const* const unknown_function_c = "<unknown function>"; }
namespace { libcwd::_private_::ThreadSpecificData the_tsd; }
libcwd::_private_::ThreadSpecificData& libcwd::_private_::ThreadSpecificData::instance() { return the_tsd; }
#endif

namespace {
void arm(libcwd::_private_::ThreadSpecificData& __libcwd_tsd)
{
  armed = true;
  ready = vf_bool("ready");
  has_object = vf_bool("object");
  has_symbol = vf_bool("symbol");
  the_pc = (void const*)(uintptr_t)vf_u64("pc");
  vf_assume((uintptr_t)the_pc < (uintptr_t)-16);
  the_lbase = vf_u64("load base");
  for (bool& h : have) h = false;
  the_object = new Object(the_lbase);
  // Debug output of libcwd itself is off.
  vf_assume(libcwd::libcw_do.index_ == 0);
  LIBCWD_DO_TSD_MEMBER_OFF(libcwd::libcw_do) = 0;
  __libcwd_tsd.lock_interface_is_locked = false;
}

// How the file path of an arbitrary location can be.
struct State { char* path; bool owner, locked, known; char const* function; ObjectFileName const* object; size_t name; unsigned line; void const* delayed; };
union Raw { Location l; Raw() { } ~Raw() { } };

char* make_path() { char* p = new char[9]; std::memcpy(p, "a/bc/d.cc", 8); p[8] = 0; return p; }
ObjectFileName const* any_object() { return vf_bool("has object") ? &object_name() : nullptr; }
char const* any_function() { return vf_bool("f") ? fname_a : vf_bool("g") ? Location::pre_libcwd_initialization : vf_bool("h") ? libcwd::unknown_function_c : Location::cleared_location; }

// Any state the representation invariant allows: filename_ points into filepath_ when known.
void any(Raw& r, State& s, char* path)
{
  s.known = vf_bool("known");
  s.path = path;
  s.owner = path && vf_bool("owner");
  s.locked = vf_bool("locked");
  vf_assume(!s.known || path);
  s.function = any_function();
  s.object = any_object();
  s.name = vf_bool("name 0") ? 0 : vf_bool("name 2") ? 2 : 5;
  s.line = vf_u32("line");
  s.delayed = (void const*)(uintptr_t)vf_u64("delayed");
  new (&r.l.filepath_) lockable_auto_ptr<char, true>;
  r.l.filepath_.ptr_ = path;
  r.l.filepath_.owner_ = s.owner;
  r.l.filepath_.locked_ = s.locked;
  r.l.known_ = s.known;
  r.l.function_name_ = s.function;
  r.l.object_file_name_ = s.object;
  r.l.line_ = s.line;
  if (s.known)
    r.l.filename_ = path + s.name;
  else
    r.l.unknown_pc_ = s.delayed;
}
void same_report(Location const& l, State const& s, char const* what)
{
  vf_assert(l.is_known() == s.known, what);
  vf_assert(l.mangled_function_name() == s.function, what);
  vf_assert(l.object_file() == s.object, what);
  vf_assert(l.initialization_delayed() == (!s.object && s.function == Location::pre_libcwd_initialization), what);
  if (s.known)
  {
    vf_assert(l.filepath_.get() == s.path, what);
    vf_assert(l.filename_ == s.path + s.name, what);
    vf_assert(l.line() == s.line, what);
  }
  else
    vf_assert(l.unknown_pc() == (!s.object && (s.function == libcwd::unknown_function_c || s.function == Location::pre_libcwd_initialization) ? s.delayed : nullptr), what);
}
bool alive(char const* p) { (void)*(char volatile const*)p; return true; }
}

// pc_location(pc) on a fresh object: the documented states.
VF_CONTRACT(lookup)
{
  LIBCWD_TSD_DECLARATION;
  arm(__libcwd_tsd);
  size_t k = vf_size("k"), j = vf_size("j");
  Raw r;
  // Whatever the memory contained before.
  r.l.object_file_name_ = &object_name();
  r.l.function_name_ = fname_b;
  r.l.unknown_pc_ = &r;
  r.l.line_ = vf_u32("previous line");
  r.l.known_ = vf_bool("previously known");
  if (vf_bool("constructed from the address"))
  {
    if (vf_bool("thread specific data given"))
      new (&r.l) Location(the_pc, LIBCWD_TSD);
    else
      new (&r.l) Location(the_pc);
  }
  else
  {
    new (&r.l) Location;
    r.l.pc_location(the_pc, LIBCWD_TSD);
  }
  Location const& l = r.l;
  vf_cover("looked up");
  if (!ready)
  {
    vf_cover("delayed");
    vf_assert(!l.is_known() && l.initialization_delayed() && l.unknown_pc() == the_pc && !l.object_file(), "before initialization the location is delayed and remembers its address");
    vf_assert(l.mangled_function_name() == Location::pre_libcwd_initialization, "before initialization the function has the placeholder name");
  }
  else if (!has_object)
  {
    vf_assert(!l.is_known() && !l.object_file() && l.unknown_pc() == the_pc && !l.initialization_delayed(), "without object file the location is unknown and remembers its address");
    vf_assert(l.mangled_function_name() == libcwd::unknown_function_c, "without object file the function is unknown");
  }
  else if (!has_symbol)
  {
    vf_assert(!l.is_known() && l.object_file() == &object_name() && !l.initialization_delayed(), "without symbol the location is unknown but has its object file");
    vf_assert(l.mangled_function_name() == libcwd::unknown_function_c, "without symbol the function is unknown");
  }
  else
  {
    LocationLookupResult const& w = result[0];
    vf_assert(l.object_file() == &object_name() && !l.initialization_delayed(), "a location with a symbol has its object file");
    vf_assert(l.mangled_function_name() == (w.effective_function_name ? w.effective_function_name : w.physical_function_name), "the function is the one that lookup found");
    vf_assert(l.is_known() == w.known, "the location is known exactly if lookup found file and line");
    if (l.is_known())
    {
      vf_cover("known");
      if (w.line != 0)
        vf_assert(l.line() == w.line, "the line is the one that lookup found");
      else if (l.line() != 0)
      {
        bool found = false;
        for (int s = 4; s <= 8; ++s)
          if (have[s])
            found |= result[s].known & (result[s].line == l.line()) & (result[s].physical_function_name == l.mangled_function_name());
        vf_assert(found, "a line taken from a following address belongs to the same function");
      }
      vf_assert(l.filepath_.is_owner(), "a known location owns its path");
    }
    if (w.filepath)
    {
      size_t len = strlen(w.filepath);
      vf_assert(l.filepath_.get() != w.filepath, "the path is a private copy");
      if (k <= len)
        vf_assert(l.filepath_.get()[k] == w.filepath[k], "the path is the one that lookup found");
      size_t n = l.filename_ - l.filepath_.get();
      vf_assert(n <= len, "the file name lies inside the path");
      vf_assert(n == 0 || l.filepath_.get()[n - 1] == '/', "the file name starts after a slash or at the beginning");
      if (n <= j && j <= len)
        vf_assert(l.filepath_.get()[j] != '/', "the file name contains no slash");
    }
  }
  r.l.filepath_.reset();
  delete the_object;
}

// pc_location(pc) reusing an object forgets everything it knew.
VF_CONTRACT(relookup)
{
  LIBCWD_TSD_DECLARATION;
  arm(__libcwd_tsd);
  vf_assume(!has_object || !has_symbol);
  Raw r;
  State s;
  char* p = make_path();
  any(r, s, p);
  vf_assume(!s.known || s.function != Location::pre_libcwd_initialization);
  r.l.pc_location(the_pc);
  vf_cover("looked up again");
  vf_assert(!r.l.is_known(), "a failed lookup makes the location unknown");
  vf_assert(r.l.initialization_delayed() == !ready, "delayed exactly if not initialized");
  vf_assert(r.l.object_file() == (ready && has_object ? &object_name() : nullptr), "the object file is that of the new address");
  if (!ready || !has_object)
    vf_assert(r.l.unknown_pc() == the_pc, "an unknown location remembers its address");
  vf_assert(r.l.filepath_length() == 0 && r.l.filename_length() == 0, "an unknown location has no file");
  r.l.~Location();
  if (!s.owner)
    delete [] p;
  delete the_object;
}

VF_CONTRACT(default_construct)
{
  Location l;
  vf_cover("constructed");
  vf_assert(!l.is_known() && !l.object_file() && l.mangled_function_name() == Location::uninitialized_location, "a default constructed location is unknown and uninitialized");
  vf_assert(!l.initialization_delayed() && l.unknown_pc() == nullptr, "a default constructed location waits for nothing");
  vf_assert(l.filepath_length() == 0 && l.filename_length() == 0, "a default constructed location has no file");
}

VF_CONTRACT(copy)
{
  Raw r;
  State s;
  char* p = make_path();
  any(r, s, p);
  {
    Location c(r.l);
    vf_cover("copied");
    same_report(c, s, "a copy reports what its source reports");
    same_report(r.l, s, "copying does not change what the source reports");
    if (s.known)
      vf_assert(c.filepath_.is_owner() == (s.owner && !s.locked) && r.l.filepath_.is_owner() == (s.owner && s.locked), "copying moves ownership unless it is locked");
    else
      vf_assert(!c.filepath_.is_owner(), "the copy of an unknown location owns nothing");
  }
  if (!(s.known && s.owner && !s.locked))
    vf_assert(alive(p), "destroying the copy frees only what it owns");
  if (s.known && s.owner && !s.locked)
    vf_cover("the copy owned the path");
  else
  {
    r.l.~Location();
    if (!s.owner)
      delete [] p;
  }
}

VF_CONTRACT(assign)
{
  Raw l, r;
  State sl, sr;
  char* a = make_path();
  char* b = make_path();
  bool alias = vf_bool("same path");
  any(r, sr, b);
  any(l, sl, alias ? b : a);
  vf_assume(!(alias && sl.owner && sr.owner));
  vf_assume(!alias || (sl.known && sr.known));
  // A location that is not known may only be left with a path that it owns.
  Location& res = (l.l = r.l);
  vf_cover("assigned");
  vf_assert(&res == &l.l, "assignment returns the left side");
  same_report(l.l, sr, "after assignment the left side reports what the right side reports");
  same_report(r.l, sr, "assignment does not change what the source reports");
  if (sr.known)
  {
    vf_assert(alive(b), "the path that both report is alive");
    vf_assert(l.l.filepath_.is_owner() == ((sr.owner && !sr.locked) || (alias && sl.owner)), "assignment moves ownership unless it is locked");
    vf_assert(r.l.filepath_.is_owner() == (sr.owner && sr.locked), "the source keeps its path exactly if it is locked");
  }
  bool b_owned = l.l.filepath_.get() == b && l.l.filepath_.is_owner() || r.l.filepath_.is_owner();
  bool a_owned = l.l.filepath_.get() == a && l.l.filepath_.is_owner();
  vf_assert(b_owned == (sr.owner || (alias && sl.owner)), "ownership of the assigned path is not lost");
  if (!alias && sl.owner && (sl.known || sr.known))
    vf_assert(!a_owned, "the old path is given up");
  l.l.~Location();
  r.l.~Location();
  if (!b_owned)
    delete [] b;               // freed by nobody so far
  if (!(!alias && sl.owner))
    delete [] a;
}

VF_CONTRACT(assign_self)
{
  Raw r;
  State s;
  char* p = make_path();
  any(r, s, p);
  Location& self = r.l;
  r.l = self;
  vf_cover("assigned");
  same_report(r.l, s, "self assignment changes nothing");
  vf_assert(r.l.filepath_.is_owner() == s.owner && alive(p), "self assignment keeps the path");
  r.l.~Location();
  if (!s.owner)
    delete [] p;
}

VF_CONTRACT(clear)
{
  Raw r;
  State s;
  char* p = make_path();
  any(r, s, p);
  r.l.clear();
  vf_cover("cleared");
  vf_assert(!r.l.is_known() && !r.l.object_file() && r.l.mangled_function_name() == Location::cleared_location, "a cleared location reports nothing");
  vf_assert(!r.l.initialization_delayed() && r.l.unknown_pc() == nullptr, "a cleared location waits for nothing");
  vf_assert(r.l.filepath_length() == 0 && r.l.filename_length() == 0, "a cleared location has no file");
  if (!s.owner)
    vf_assert(alive(p), "clearing frees only what is owned");
  r.l.clear();
  r.l.~Location();
  if (!s.owner)
    delete [] p;
}

VF_CONTRACT(lock)
{
  Raw r;
  State s;
  char* p = make_path();
  any(r, s, p);
  vf_assume(s.owner && s.known);
  r.l.lock_ownership();
  vf_cover("locked");
  same_report(r.l, s, "locking does not change what is reported");
  {
    Location c(r.l);
    same_report(c, s, "a copy reports what its source reports");
    vf_assert(!c.filepath_.is_owner() && r.l.filepath_.is_owner(), "a locked location keeps its path when copied");
  }
  vf_assert(alive(p), "the path survives the copy");
  r.l.~Location();
}

// --- printing
namespace {
// Records what is written.
struct Rec
{
  int n = 0;
  struct Item { char kind; void const* p; uint64_t v; } item[16];
  void add(char kind, void const* p, uint64_t v) { vf_assert(n < 16, "few items"); item[n].kind = kind; item[n].p = p; item[n].v = v; ++n; }
  Rec& operator<<(char const* s) { add('s', s, 0); return *this; }
  Rec& operator<<(char c) { add('c', nullptr, (unsigned char)c); return *this; }
  Rec& operator<<(unsigned v) { add('u', nullptr, v); return *this; }
  Rec& operator<<(int v) { add('u', nullptr, v); return *this; }
  Rec& operator<<(void const* p) { add('p', p, 0); return *this; }
  Rec& operator<<(std::ios_base& (*)(std::ios_base&)) { return *this; }
  int at = 0;
  void s(char const* p) { vf_assert(at < n && item[at].kind == 's' && item[at].p == p, "the expected text is printed next"); ++at; }
  void text(char const* p) { vf_assert(at < n && item[at].kind == 's' && !std::strcmp((char const*)item[at].p, p), "the expected text is printed next"); ++at; }
  void c(char x) { vf_assert(at < n && ((item[at].kind == 'c' && item[at].v == (unsigned char)x) || (item[at].kind == 's' && ((char const*)item[at].p)[0] == x && !((char const*)item[at].p)[1])), "the expected character is printed next"); ++at; }
  void u(unsigned v) { vf_assert(at < n && item[at].kind == 'u' && item[at].v == v, "the line number is printed next"); ++at; }
  void p(void const* x) { vf_assert(at < n && item[at].kind == 'p' && item[at].p == x, "the address is printed next"); ++at; }
};
}
VF_CONTRACT(print)
{
  LIBCWD_TSD_DECLARATION;
  Raw r;
  State s;
  char* path = make_path();
  any(r, s, path);
  vf_assume(!s.known || s.object);
  const_cast<ObjectFileName&>(object_name()).filepath_ = "/lib/x.so";
  const_cast<ObjectFileName&>(object_name()).filename_ = object_name().filepath_ + 5;
  libcwd::location_format_t f = vf_u16("format"), old = vf_u16("old format");
  vf_assume(f < 8);
  __libcwd_tsd.format = old;
  vf_assert(libcwd::location_format(f) == old, "setting the format returns the previous one");
  Rec o;
  libcwd::_private_::print_location_on(o, r.l);
  vf_cover("printed");
  if (s.known)
  {
    if (f & libcwd::show_objectfile) { o.s(object_name().filename()); o.c(':'); }
    if (f & libcwd::show_function) { o.s(s.function); o.c(':'); }
    o.s(f & libcwd::show_path ? path : path + s.name);
    o.c(':');
    o.u(s.line);
  }
  else if (s.object)
  {
    o.s(object_name().filename()); o.c(':'); o.s(s.function);
  }
  else
  {
    o.text("<unknown object file> (at ");
    o.p(s.function == libcwd::unknown_function_c || s.function == Location::pre_libcwd_initialization ? s.delayed : nullptr);
    o.c(')');
  }
  vf_assert(o.at == o.n, "nothing else is printed");
  vf_assert(libcwd::location_format(0) == f, "printing does not change the format");
  if (s.known)
  {
    vf_assert(r.l.filename_length() == std::strlen(path) - s.name, "the file name length is that of the file name");
    vf_assert(r.l.filepath_length() == 8, "the path length is that of the path");
#ifdef VF_NATIVE
    vf_assert(r.l.file() == path + s.name, "file() is the file name");
#endif
  }
  if (s.owner)
    r.l.filepath_.reset();
  else
    delete [] path;
}
