// Contracts for the attribution of addresses to object files and symbols (src/dwarf.cxx).
#include "vf.h"
#include <cstring>
#include <iterator>
#include <map>
#include <utility>
#include <new>

namespace libcwd::dwarf {
class SymbolRange;
class PTLoadSegment;
class ObjectFile;
namespace { struct DynamicLoaderRecord; }
}

#ifndef VF_NATIVE
// The containers are described at one arbitrary address X (or handle): "the element that covers X" is real, every other
// element is arbitrary each time that it is looked at, except that elements are disjoint, not empty and sorted.
namespace {
uint64_t X;             // an arbitrary address
uint64_t covered;       // an element of the map covers X
struct Ends { uint64_t first, last, more; };
Ends entry;             // the element that covers X: [first, last)

uint64_t passed;        // it was passed
uint64_t removed_self, removed_other;
uint64_t inserted;      // elements inserted
uint64_t clashes;       // ... overlapping the one at X
uint64_t entry_lbase, asked_lbase;
uint64_t known, known_lo, known_which;  // the answer to the last question what comes after lo
}
namespace libcwd::dwarf {
struct vf_storage { static void* entry_bytes(); static void construct_other(void* bytes, Ends const& r); };
}

template <class K, class V, class T> struct vf_map
{
  using key_type = K;
  using mapped_type = V;
  using size_type = size_t;
  struct value_type
  {
    K const first;
    V second;
  };
  struct iterator
  {
    using iterator_category = std::bidirectional_iterator_tag;
    using difference_type = std::ptrdiff_t;
    using value_type = vf_map::value_type;
    using pointer = value_type*;
    using reference = value_type&;
    uint64_t which;             // 0: the element that covers X, 1: another one, 2: the end
    Ends r;                     // ... its range
    alignas(8) char bytes[sizeof(value_type)];
    explicit iterator(uint64_t lo) { forward(lo); }
    iterator() : which(2), r{} { }
    iterator(iterator const& o) : which(o.which), r(o.r) { }
    iterator& operator=(iterator const& o)
    {
      which = o.which;
      r = o.r;
      return *this;
    }
    value_type& e() const
    {
      vf_assert(which != 2, "only elements of the map are used");
      return *(value_type*)T::make(which, r, (void*)bytes);
    }
    void choose(uint64_t w, uint64_t lo, uint64_t ls, uint64_t hi)
    {
      which = w;
      Ends o{vf_u64("start of another range"), vf_u64("end of another range"), vf_u64("more of another element")};
      vf_assume((w != 1) | ((o.first < o.last) & (o.last > lo) & (o.first >= ls) & (o.last <= hi)));
      vf_assume((w != 1) | (X < o.first) | (X >= o.last));
      vf_assume((w != 1) | (covered == 0) | (o.last <= entry.first) | (o.first >= entry.last));
      r.first = w == 0 ? entry.first : o.first;
      r.last = w == 0 ? entry.last : o.last;
      r.more = w == 0 ? entry.more : o.more;
    }
    // The first element that ends after lo.
    void forward(uint64_t lo, uint64_t ls = 0)
    {
      bool ahead = (covered != 0) & (entry.last > lo);
      uint64_t fresh = vf_u8("next") & 3;
      // The same question has the same answer as long as the map is not changed.
      uint64_t w = (known != 0) & (known_lo == lo) ? known_which : fresh;
      known = 1;
      known_lo = lo;
      known_which = w;
      vf_assume((w == 1) | (w == (ahead ? 0 : 2)));
      choose(w, lo, ls, ahead ? entry.first : ~(uint64_t)0);
    }
    iterator& operator++()
    {
      vf_assert(which != 2, "only elements of the map are used");
      passed = which == 0 ? 1 : passed;
      forward(r.last, r.last);
      return *this;
    }
    iterator operator++(int) { iterator t = *this; ++*this; return t; }
    iterator& operator--()
    {
      bool at_end = which == 2;
      bool behind = (covered != 0) & (at_end | (entry.last < r.last));
      uint64_t fresh = vf_u8("previous") & 1;
      vf_assume((fresh == 1) | behind);
      choose(fresh, behind ? entry.last : 0, behind ? entry.last : 0, at_end ? ~(uint64_t)0 : r.first);
      return *this;
    }
    value_type* operator->() const { return &e(); }
    value_type& operator*() const { return e(); }
    bool operator==(iterator const& o) const
    {
      return (which == 2) | (o.which == 2) ? which == o.which : r.last == o.r.last;
    }
    bool operator!=(iterator const& o) const { return !(*this == o); }
  };
  using const_iterator = iterator;
  iterator begin() const { return iterator(0); }
  iterator end() const { return iterator(); }
  iterator cbegin() const { return begin(); }
  iterator cend() const { return end(); }
  bool empty() const { return begin().which == 2; }
  size_t size() const { return vf_size("size"); }
  iterator upper_bound(K k) const { return iterator(k); }
  iterator lower_bound(K k) const
  {
    if (k == 0)
      return begin();
    return iterator(k - 1);
  }
  iterator erase(iterator it)
  {
    vf_assert(it.which != 2, "only elements of the map are erased");
    vf_assert((it.which != 0) | (covered != 0), "only elements of the map are erased");
    T::erased(it.r);
    known = 0;
    covered = it.which == 0 ? 0 : covered;
    passed = it.which == 0 ? 1 : passed;
    iterator next;
    next.forward(it.r.last, it.r.last);
    return next;
  }
  template <class... A> std::pair<iterator, bool> try_emplace(K k, A&&... a)
  {
    alignas(8) char bytes[sizeof(value_type)];
    new (bytes) value_type{k, V(std::forward<A>(a)...)};
    return insert_(*(value_type*)bytes);
  }
  template <class... A> std::pair<iterator, bool> emplace(K k, A&&... a) { return try_emplace(k, std::forward<A>(a)...); }
  std::pair<iterator, bool> insert_(value_type const& v)
  {
    uint64_t first = T::start(v);
    vf_assert(T::end(v) == v.first, "every range is stored under its end");
    vf_assert(first < v.first, "only nonempty ranges are stored");
    T::insert(v);
    // Another element may already be in the way; the caller has to find out.
    if (vf_bool("there already"))
    {
      iterator there;
      there.which = 0;
      there.r = entry;
      vf_assume((covered != 0) & (entry.last == v.first));
      return {there, false};
    }
    vf_assume((covered == 0) | (entry.last != v.first));
    known = 0;
    // An element that overlaps the one at X; here the map is no longer what it should be.
    bool clash = (covered != 0) & (first < entry.last) & (entry.first < v.first);
    clashes |= clash;
    bool at = (first <= X) & (X < v.first) & !clash;
    inserted = 1;
    covered |= at;
    entry.first = at ? first : entry.first;
    entry.last = at ? (uint64_t)v.first : entry.last;
    uint64_t more = T::more(v);
    entry.more = at ? more : entry.more;
    iterator it;
    it.which = at ? 0 : 1;
    it.r.first = first;
    it.r.last = v.first;
    it.r.more = more;
    return {it, true};
  }
};
namespace {
struct SymbolTraits;
struct SegmentTraits;
struct SymbolTraits
{
  static void* make(uint64_t which, Ends const& r, void* bytes);
  template <class E> static uint64_t start(E const& e) { return e.second.start_addr_; }
  template <class E> static uint64_t end(E const& e) { return e.second.end_addr_; }
  template <class E> static uint64_t more(E const&) { return 0; }
  static void erased(Ends const&) { vf_assert(false, "symbols are not erased"); }
  template <class E> static void insert(E const&) { vf_assert(false, "symbols are inserted by insert_function_symbol_range"); }
};
struct SegmentTraits
{
  static void* make(uint64_t which, Ends const& r, void* bytes);
  static void insert_(libcwd::dwarf::ObjectFile const* o, uint64_t start, uint64_t end);
  static uint64_t more_(libcwd::dwarf::ObjectFile const* o);
  template <class E> static uint64_t start(E const& e) { return e.second.start_addr_; }
  template <class E> static uint64_t end(E const& e) { return e.second.end_addr_; }
  template <class E> static uint64_t more(E const& e) { return more_(e.second.object_file_); }
  static void erased(Ends const& r)
  {
    removed_self |= (r.more & 1) == 0;
    removed_other |= (r.more & 1) != 0;
  }
  template <class E> static void insert(E const& e) { insert_(e.second.object_file_, e.second.start_addr_, e.second.end_addr_); }
};
}
template <> class std::map<uintptr_t, libcwd::dwarf::SymbolRange> : public vf_map<uintptr_t, libcwd::dwarf::SymbolRange, SymbolTraits> { };
template <> class std::map<uintptr_t, libcwd::dwarf::PTLoadSegment const> : public vf_map<uintptr_t, libcwd::dwarf::PTLoadSegment const, SegmentTraits> { };

// The records of dlopen, at one arbitrary handle.
namespace {
void* the_handle;
struct RecordState { int refcount, flags; libcwd::dwarf::ObjectFile const* object; };
uint64_t has_record;
}
template <> class std::map<void*, libcwd::dwarf::DynamicLoaderRecord, std::less<void*>>
{
 public:
  using R = libcwd::dwarf::DynamicLoaderRecord;
  template <class W> struct vt { void* const first; W second; };
  using value_type = vt<R>;
  struct iterator
  {
    uint64_t at;
    value_type* operator->() const
    {
      vf_assert((at != 0) & (has_record != 0), "only existing records are used");
      return (value_type*)bytes();
    }
    value_type& operator*() const { return *operator->(); }
    bool operator==(iterator const& o) const { return at == o.at; }
    bool operator!=(iterator const& o) const { return at != o.at; }
  };
  static void* bytes();
  iterator find(void* h) const
  {
    vf_assert(h == the_handle, "the record of the handle is looked for");
    return iterator{has_record};
  }
  iterator end() const { return iterator{0}; }
  void erase(iterator it)
  {
    vf_assert((it.at != 0) & (has_record != 0), "only existing records are erased");
    has_record = 0;
  }
  template <class V> std::pair<iterator, bool> emplace(void* h, V&& v) { return put(h, std::forward<V>(v)); }
  template <class... A> std::pair<iterator, bool> try_emplace(void* h, A&&... a) { return put(h, R(std::forward<A>(a)...)); }
  template <class W> std::pair<iterator, bool> put(void* h, W const& r)
  {
    vf_assert(h == the_handle, "the record of the handle is added");
    if (has_record)
      return {iterator{1}, false};
    has_record = 1;
    new (bytes()) vt<W>{h, r};
    return {iterator{1}, true};
  }
};
#endif

#include "src/dwarf.cxx"
using namespace libcwd::dwarf;

#ifndef VF_NATIVE
using libcwd::ObjectFileName;
int vf_ts_violations, vf_ts_held;
namespace { libcwd::_private_::ThreadSpecificData the_tsd; }
libcwd::_private_::ThreadSpecificData& libcwd::_private_::ThreadSpecificData::instance() { return the_tsd; }

namespace {
using SymbolMap = std::map<uintptr_t, SymbolRange>;
using SegmentMap = std::map<uintptr_t, PTLoadSegment const>;
alignas(8) char symbol_bytes[sizeof(SymbolMap::value_type)];
alignas(8) char record_bytes[64];
char const entry_name[] = "symbol at the address";
char const other_name[] = "another symbol";
char die_bytes[1];
// Object files: the one under consideration, the one of the segment at X, any other.
union Raw { ObjectFile o; char bytes[sizeof(ObjectFile)]; Raw() { } ~Raw() { } };
Raw objects[4];
ObjectFile const* object(uint64_t i) { return &objects[i].o; }
uintptr_t& lbase_of(int i) { return const_cast<uintptr_t&>(object(i)->lbase_); }

void* SymbolTraits::make(uint64_t which, Ends const& r, void* bytes)
{
  if (which == 0)
    return symbol_bytes;
  new (bytes) SymbolMap::value_type{r.last, SymbolRange(r.first, r.last, r.first, r.last, other_name, nullptr)};
  return bytes;
}
void* SegmentTraits::make(uint64_t which, Ends const& r, void* bytes)
{
  // The number of the object is that at X, or that of the object under consideration or of any other.
  lbase_of(2) = lbase_of(3) = vf_u64("load base of another object");
  new (bytes) SegmentMap::value_type{r.last, PTLoadSegment(object(which == 0 ? r.more & 1 : (r.more & 1) * 2), r.first, r.last, r.more >> 32)};
  return bytes;
}
uint64_t SegmentTraits::more_(ObjectFile const* o) { return o == object(0) ? 0 : 1; }
}
void* std::map<void*, DynamicLoaderRecord, std::less<void*>>::bytes() { return record_bytes; }

namespace {
void quiet()
{
  // Debug output of libcwd itself is off.
  vf_assume(libcwd::libcw_do.index_ == 0);
  LIBCWD_TSD_DECLARATION;
  LIBCWD_DO_TSD_MEMBER_OFF(libcwd::libcw_do) = 0;
  libcwd::_private_::always_print_loading = false;
  s_object_files_is_locked_ = false;
  vf_ts_violations = vf_ts_held = 0;
  passed = removed_self = removed_other = inserted = clashes = known = 0;
}
void any_range()
{
  X = vf_u64("address");
  covered = vf_bool("covered");
  entry.first = vf_u64("start");
  entry.last = vf_u64("end");
  vf_assume((entry.first <= X) & (X < entry.last));
}
void any_symbol()
{
  uint64_t first = vf_u64("start of the symbol"), last = vf_u64("end of the symbol");
  vf_assume((first <= entry.first) & (entry.last <= last));
  Dwarf_Die die{};
  die.addr = die_bytes;
  new (symbol_bytes) SymbolMap::value_type{entry.last, SymbolRange(entry.first, entry.last, first, last, entry_name, vf_bool("elf") ? nullptr : &die)};
}
SymbolRange const* symbol_at_x() { return &((SymbolMap::value_type*)symbol_bytes)->second; }
void any_segments(int object_of_entry)
{
  any_range();
  for (int i = 0; i < 4; ++i)
    lbase_of(i) = vf_u64("load base");
  vf_assume(lbase_of(0) != lbase_of(1));
  entry_lbase = lbase_of(object_of_entry);
  entry.more = object_of_entry;
}
ObjectFileRegistry::object_files_ts segments;
}
extern "C" ObjectFileRegistry::object_files_ts* vf_object_files_map() { return &segments; }

// --- lookups
VF_CONTRACT(symbol_of)
{
  quiet();
  any_range();
  any_symbol();
  union U { ObjectFileData d; U() { } ~U() { } } u;
  SymbolRange const* s = u.d.get_symbol_range_from_function_symbols_map(X);
  vf_assert(s == (covered ? symbol_at_x() : nullptr), "the symbol found is the one that contains the address");
  vf_cover("looked up");
}

namespace { int realized; ObjectFile const* realized_object; bool initialized_; void const* asked; ObjectFile const* answer; }
extern "C" void vf_realize_symbols(ObjectFile const* o)
{
  vf_assert((vf_ts_held == 0) & !s_object_files_is_locked_, "symbols are loaded without holding the lock of the registry");
  ++realized;
  realized_object = o;
}
VF_CONTRACT(object_of)
{
  quiet();
  any_segments(vf_bool("self") ? 0 : 1);
  realized = 0;
  ObjectFile const* o = ObjectFileRegistry::find_object_file(X);
  vf_assert(o == (covered ? object(entry.more) : nullptr), "the object file found is the one that contains the address");
  vf_assert(realized == (int)covered, "its symbols are loaded once");
  vf_assert(!covered | (realized_object == o), "its symbols are loaded once");
  vf_assert((vf_ts_held == 0) & (vf_ts_violations == 0) & !s_object_files_is_locked_, "locks are released");
  vf_cover("looked up");
}
extern "C" bool vf_ensure_initialization(libcwd::_private_::ThreadSpecificData&) { return initialized_; }
extern "C" ObjectFile const* vf_find_object_file(uintptr_t addr)
{
  asked = (void const*)addr;
  return answer;
}
VF_CONTRACT(object_of_pointer)
{
  quiet();
  any_segments(1);
  initialized_ = vf_bool("initialized");
  answer = vf_bool("found") ? object(0) : nullptr;
  void const* p = (void const*)vf_u64("pc");
  LIBCWD_TSD_DECLARATION;
  ObjectFileInterface const* o = find_object_file(p, LIBCWD_TSD);
  vf_assert(o == (initialized_ ? answer : nullptr), "the object file found is the one that contains the address");
  vf_assert(!initialized_ | (asked == p), "the given address is looked up");
  vf_cover("looked up");
}

namespace { int elf_loads; uintptr_t the_lbase; char const* the_path; }
extern "C" void vf_load_elf(ObjectFileData* d, uintptr_t lbase, std::string const& path)
{
  vf_assert(!d->elf_symbols_loaded_, "the ELF symbols are loaded at most once");
  vf_assert(!covered, "the ELF symbols are loaded only when no symbol contains the address");
  vf_assert(lbase == the_lbase, "the symbols are loaded with the load base of the object");
  vf_assert((vf_ts_held == 2) & (vf_ts_violations == 0), "the symbols are loaded under the write lock");
  d->elf_symbols_loaded_ = true;
  ++elf_loads;
  covered = vf_bool("now covered");
}
VF_CONTRACT(find_symbol)
{
  quiet();
  any_range();
  any_symbol();
  Raw r;
  const_cast<uintptr_t&>(r.o.lbase_) = the_lbase = vf_u64("load base");
  ObjectFileData& d = r.o.object_file_data_.data_;
  r.o.object_file_data_.readers_ = r.o.object_file_data_.writer_ = 0;
  bool loaded = vf_bool("loaded"), was = covered;
  d.elf_symbols_loaded_ = loaded;
  d.object_file_name_.filepath_ = (char*)"path";
  elf_loads = 0;
  SymbolRangeInterface const* s = r.o.find_symbol(X);
  vf_assert(s == (covered ? symbol_at_x() : nullptr), "the symbol found is the one that contains the address");
  vf_assert(elf_loads == (!was & !loaded), "the ELF symbols are tried once, when there is no other symbol");
  vf_assert(d.elf_symbols_loaded_ == (loaded | !was), "the ELF symbols are tried once, when there is no other symbol");
  vf_assert((vf_ts_held == 0) & (vf_ts_violations == 0), "locks are released");
  vf_cover("looked up");
}

extern "C" SymbolRangeInterface const* vf_find_symbol(ObjectFile const* o, uintptr_t addr)
{
  vf_assert((o == answer) & ((void const*)addr == asked), "the object that contains the address is asked for its symbol");
  return covered ? symbol_at_x() : nullptr;
}
extern "C" ObjectFileInterface const* vf_find_object_file_of(void const* addr, libcwd::_private_::ThreadSpecificData&)
{
  asked = addr;
  return answer;
}
VF_CONTRACT(function_name)
{
  quiet();
  any_range();
  any_symbol();
  any_segments(1);
  answer = vf_bool("found") ? object(0) : nullptr;
  covered = vf_bool("has symbol");
  void const* pc = (void const*)vf_u64("pc");
  char const* n = libcwd::pc_mangled_function_name(pc);
  vf_assert(asked == pc, "the given address is looked up");
  vf_assert(n == (answer && covered ? entry_name : libcwd::unknown_function_c), "the name is that of the symbol at the address");
  vf_cover("looked up");
}

// --- loading of symbols
namespace { int inserts; uint64_t in_start, in_end; char const* in_name; Dwarf_Die const* in_die; bool in_result; uint64_t at; char at_char; }
extern "C" bool vf_insert(FunctionSymbolRanges&, uintptr_t start, uintptr_t end, char const* name, Dwarf_Die const* die)
{
  ++inserts;
  in_start = start;
  in_end = end;
  in_name = name;
  in_die = die;
  if (at != ~(uint64_t)0)
    at_char = name[at];
  return in_result;
}
VF_CONTRACT(add_range)
{
  quiet();
  union U { ObjectFileData d; U() { } ~U() { } } u;
  uint64_t start = vf_u64("start"), end = vf_u64("end"), lbase = vf_u64("load base");
  Dwarf_Die die{};
  inserts = 0;
  at = ~(uint64_t)0;
  in_result = vf_bool("inserted");
  bool r = u.d.add_function_symbol_range(start, end, entry_name, &die, lbase);
  bool ok = (start < end) & (end + lbase >= lbase);
  vf_assert(inserts == ok, "a range is stored when it is not empty and does not wrap");
  vf_assert(r == (ok & in_result), "whether something was stored is reported");
  vf_assert(!ok | ((in_start == lbase + start) & (in_end == lbase + end) & (in_name == entry_name) & (in_die == &die)), "ranges are stored at their run time address");
  vf_cover("added");
}
VF_CONTRACT(add_elf)
{
  quiet();
  union U { ObjectFileData d; U() { } ~U() { } } u;
  uint64_t lbase = vf_u64("load base");
  GElf_Sym sym;
  sym.st_name = vf_u32("st_name");
  sym.st_info = vf_u8("st_info");
  sym.st_other = vf_u8("st_other");
  sym.st_shndx = vf_u16("st_shndx");
  sym.st_value = vf_u64("st_value");
  sym.st_size = vf_u64("st_size");
  char const* name = vf_bool("named") ? vf_cstr("name") : nullptr;
  size_t len = name ? std::strlen(name) : 0;
  at = vf_size("position");
  vf_assume(at <= len);
  inserts = 0;
  in_result = vf_bool("inserted");
  u.d.add_elf_function_symbol(sym, name, lbase);
  int type = sym.st_info & 15;
  uint64_t end = sym.st_value + sym.st_size;
  bool ok = (len != 0) & (sym.st_shndx != SHN_UNDEF) & (sym.st_size != 0) & ((type == STT_FUNC) | (type == STT_GNU_IFUNC)) & (end > sym.st_value) & (end + lbase >= lbase);
  vf_assert(inserts == ok, "exactly the defined, named and nonempty functions that do not wrap are stored");
  if (ok)
  {
    vf_assert((in_start == lbase + sym.st_value) & (in_end == lbase + end) & (in_die == nullptr), "ranges are stored at their run time address");
    vf_assert((in_name != name) & (at_char == name[at]), "the symbol has its own copy of the name");
    if (in_result)
      vf_assert(in_name[at] == name[at], "the copy of the name stays");
  }
  vf_cover("added");
}

// --- registration of objects
VF_CONTRACT(registered_object)
{
  quiet();
  any_segments(vf_bool("self") ? 0 : 1);
  uintptr_t lbase = asked_lbase = vf_u64("asked");
  ObjectFile const* o;
  {
    ObjectFileRegistry::object_files_ts::wat w(segments);
    o = ObjectFileRegistry::find_registered_object_file(lbase, w);
  }
  vf_assert(!o || o->get_lbase() == lbase, "the object found has the load base asked for");
  vf_assert(o || !covered || lbase_of(entry.more) != lbase, "an object that has a segment is found");
  vf_cover("searched");
}

namespace { int closes; }
extern "C" void vf_close_dwarf(ObjectFileData*) { ++closes; }
static void unregister(int which)
{
  quiet();
  any_segments(which);
  bool was = covered;
  closes = 0;
  ObjectFileData& d = objects[0].o.object_file_data_.data_;
  ObjectFile const* o = d.unregister_object_file_ranges(object(0));
  vf_assert((covered != 0) == (was & (which != 0)), "exactly the segments of the object are removed");
  vf_assert(!removed_other, "exactly the segments of the object are removed");
  vf_assert(o == (removed_self ? object(0) : nullptr), "the object is obsolete when it had segments");
  vf_assert(closes == 1, "the debug information is closed");
  vf_assert((vf_ts_held == 0) & (vf_ts_violations == 0) & !s_object_files_is_locked_, "locks are released");
  vf_cover("unregistered");
}
VF_CONTRACT(unregister_own) { unregister(0); }
VF_CONTRACT(unregister_other) { unregister(1); }

namespace {
uint64_t news, deletes, constructed, destroyed, answered, on_target;
bool registered;
char const* named;
uint64_t the_base, phdr_count;
void SegmentTraits::insert_(ObjectFile const* o, uint64_t, uint64_t)
{
  vf_assert(o == object(0), "the segments belong to the new object");
  vf_assert((vf_ts_held == 1) & (vf_ts_violations == 0) & s_object_files_is_locked_, "segments are added under the lock");
}
}
extern "C" void vf_phdrs(void* p, uint64_t lbase, uint64_t x);
extern "C" bool vf_covered_by(uint64_t n);      // one of the first n program headers is loadable, not empty and covers X
extern "C" bool vf_loadable(uint64_t n);        // one of the first n program headers is loadable and not empty
extern "C" void* vf_new(size_t n)
{
  vf_assert(n == sizeof(ObjectFile), "one object is created");
  news = news + 1;
  return &objects[0];
}
extern "C" void vf_delete(void* p)
{
  vf_assert(p == &objects[0], "only the object itself is deleted");
  deletes = deletes + 1;
}
extern "C" void vf_construct(ObjectFile* o, uintptr_t lbase, char const* name)
{
  constructed = constructed + 1;
  vf_assert((o == object(0)) & (lbase == the_base), "the object has the load base of what was loaded");
  lbase_of(0) = lbase;
  named = name;
}
extern "C" void vf_destroy(ObjectFile* o)
{
  vf_assert(o == object(0), "only the object itself is deleted");
  destroyed = destroyed + 1;
}
extern "C" ObjectFile const* vf_find_registered(uintptr_t lbase, ObjectFileRegistry::object_files_ts::wat const&)
{
  vf_assert(lbase == the_base, "the load base of the object is looked for");
  vf_assert(vf_ts_held == 1, "the registry is searched under the lock");
  return registered ? object(1) : nullptr;
}
namespace {
void callback_(bool new_object, bool names)
{
  quiet();
  any_segments(1);
  news = deletes = constructed = destroyed = 0;
  registered = vf_bool("registered");
  bool was = covered;
  dl_phdr_info info;
  the_base = info.dlpi_addr = vf_u64("load base");
  phdr_count = info.dlpi_phnum = vf_u16("program headers");
  bool has_name = true, null_name = false;
  if (names)
  {
    has_name = vf_bool("has name");
    null_name = vf_bool("no name");
    vf_assume(phdr_count == 0);
  }
  info.dlpi_name = null_name ? nullptr : has_name ? "name" : "";
  char* phdr = vf_buf("phdr", phdr_count * sizeof(ElfW(Phdr)));
  info.dlpi_phdr = (ElfW(Phdr)*)phdr;
  vf_phdrs(phdr, the_base, X);
  union U { ObjectFileRegistry::CallBackData d; U() { } ~U() { } } u;
  u.d.executable_path_._M_dataplus._M_p = (char*)"executable";
  u.d.target_lbase_ = vf_u64("target");
  u.d.object_file_ = nullptr;
  bool only = u.d.target_lbase_ != 0, other = only & (u.d.target_lbase_ != the_base);
  vf_assume((other | registered) == !new_object);
  vf_expect_fatal(true);        // segments that overlap or wrap
  int stop = ObjectFileRegistry::cb_dl_iterate_phdr(&info, sizeof(info), &u.d);
  vf_expect_fatal(false);
  vf_assert((vf_ts_held == 0) & (vf_ts_violations == 0) & !s_object_files_is_locked_, "locks are released");
  vf_assert((stop != 0) == (only & !other), "the search ends at the object that it is for");
  if (other | registered)
  {
    vf_assert((news == 0) & (inserted == 0) & ((covered != 0) == was) & (entry.more == 1), "an object that is known or not asked for is not registered");
    vf_assert(u.d.object_file_ == (other ? nullptr : object(1)), "the object found is reported");
  }
  else
  {
    bool any = vf_loadable(phdr_count), in = vf_covered_by(phdr_count);
    vf_assert((covered != 0) == (was | in), "an address is covered when a loadable segment contains it");
    vf_assert(!(was & in) & !clashes, "segments do not overlap");
    vf_assert(!in | (entry.more == 0), "the segments belong to the new object");
    vf_assert((news == 1) & (constructed == 1), "one object is created");
    vf_assert(named == (null_name | !has_name ? u.d.executable_path_._M_dataplus._M_p : info.dlpi_name), "the object is named after its file");
    vf_assert((deletes == !any) & (destroyed == !any), "an object without segments is not kept");
    vf_assert(u.d.object_file_ == (any ? object(0) : nullptr), "the object found is reported");
  }
  vf_cover("registered");
}
}
VF_CONTRACT(callback) { callback_(true, false); }
VF_CONTRACT(callback_names) { callback_(true, true); }
VF_CONTRACT(callback_known) { callback_(false, false); }

// --- dlopen and dlclose
namespace {
struct Record { void* handle; RecordState r; };
struct link_map the_link_map;
int opens, open_flags, closes_, close_result, registrations, unregistrations, infos;
char const* open_name;
bool info_ok, was_registered;
ObjectFile const* to_register;
ObjectFile const* obsolete;
std::map<void*, DynamicLoaderRecord, std::less<void*>>::value_type& record() { return *(std::map<void*, DynamicLoaderRecord, std::less<void*>>::value_type*)record_bytes; }
dynamic_loader_records_ts records;
RecordState old;
void any_record()
{
  quiet();
  for (int i = 0; i < 4; ++i)
    lbase_of(i) = vf_u64("load base");
  has_record = vf_bool("has record");
  old.refcount = vf_u32("references");
  old.flags = vf_u32("record flags");
  old.object = object(0);
  vf_assume((old.refcount > 0) & (old.refcount < 0x7fffffff));
  the_handle = (void*)vf_u64("handle");
  DynamicLoaderRecord r(old.object, old.flags);
  r.refcount_ = old.refcount;
  new (record_bytes) std::map<void*, DynamicLoaderRecord, std::less<void*>>::value_type{the_handle, r};
  opens = closes_ = registrations = unregistrations = infos = 0;
  deletes = destroyed = 0;
}
}
extern "C" dynamic_loader_records_ts* vf_dlopen_map() { return &records; }
extern "C" void vf_initialize() { }
extern "C" void vf_no_output(void*) { }
extern "C" void* vf_real_dlopen(char const* name, int flags)
{
  ++opens;
  open_name = name;
  open_flags = flags;
  return the_handle;
}
extern "C" int vf_real_dlclose(void* handle)
{
  vf_assert(handle == the_handle, "the handle given is closed");
  ++closes_;
  return close_result;
}
extern "C" int vf_dlinfo(void* handle, int what, void* p)
{
  vf_assert((handle == the_handle) & (what == RTLD_DI_LINKMAP), "the load base of the opened object is asked for");
  *(struct link_map**)p = &the_link_map;
  ++infos;
  return info_ok ? 0 : -1;
}
extern "C" ObjectFile const* vf_register(uintptr_t lbase, bool& already_registered)
{
  vf_assert(lbase == the_link_map.l_addr, "the opened object is registered");
  vf_assert((vf_ts_held == 0) & !s_object_files_is_locked_, "no lock is held while objects are registered");
  ++registrations;
  already_registered = was_registered;
  return to_register;
}
extern "C" ObjectFile const* vf_unregister(ObjectFileData* d, ObjectFile const* self)
{
  vf_assert((self == object(0)) & (d == &objects[0].o.object_file_data_.data_), "the object of the record is unregistered");
  vf_assert((vf_ts_held == 1) & (vf_ts_violations == 0), "the object is unregistered under its write lock only");
  ++unregistrations;
  return obsolete;
}
VF_CONTRACT(opening)
{
  any_record();
  bool had = has_record;
  real_dlopen.func = vf_real_dlopen;
  info_ok = vf_bool("has link map");
  the_link_map.l_addr = vf_u64("address");
  was_registered = vf_bool("was registered");
  to_register = was_registered | vf_bool("has segments") ? object(1) : nullptr;
  char const* name = vf_bool("null") ? nullptr : vf_bool("empty") ? "" : "name";
  int flags = vf_u32("flags");
  void* h = dlopen(name, flags);
  vf_assert((opens == 1) & (open_name == name) & (open_flags == flags) & (h == the_handle), "the real dlopen is called once with the same arguments");
  bool reg = (h != nullptr) & !had & !(flags & RTLD_NOLOAD) & (name != nullptr) && *name;
  vf_assert(registrations == (reg & info_ok), "an object that was opened is registered when it has no record yet");
  bool add = reg & info_ok & !was_registered & (to_register != nullptr);
  vf_assert((has_record != 0) == (had | add), "an object that was loaded by this call gets a record, objects loaded otherwise never are unloaded by dlclose");
  if (had & (h != nullptr))
    vf_assert((record().second.refcount_ == old.refcount + 1) & (record().second.object_file_ == object(0)) & (record().second.flags_ == (old.flags | flags)), "every successful open counts as a reference");
  else if (had)
    vf_assert((record().second.refcount_ == old.refcount) & (record().second.flags_ == old.flags), "a failed open changes nothing");
  else if (add)
    vf_assert((record().second.refcount_ == 1) & (record().second.object_file_ == object(1)) & (record().second.flags_ == flags), "the record starts with one reference");
  vf_assert((vf_ts_held == 0) & (vf_ts_violations == 0), "locks are released");
  vf_cover("opened");
}
VF_CONTRACT(closing)
{
  any_record();
  bool had = has_record;
  real_dlclose.func = vf_real_dlclose;
  close_result = vf_u32("result");
  obsolete = vf_bool("has segments") ? object(0) : nullptr;
  objects[0].o.object_file_data_.readers_ = objects[0].o.object_file_data_.writer_ = 0;
  int r = dlclose(the_handle);
  vf_assert((closes_ == 1) & (r == close_result), "the real dlclose is called once and its result returned");
  bool dropped = had & (close_result == 0), last = dropped & (old.refcount == 1), unload = last & !(old.flags & RTLD_NODELETE);
  vf_assert((has_record != 0) == (had & !last), "the record goes with the last reference");
  if (has_record)
    vf_assert((record().second.refcount_ == old.refcount - dropped) & (record().second.flags_ == old.flags), "every close drops a reference");
  vf_assert(unregistrations == unload, "an object is unregistered exactly when its last reference is closed and it is unloaded");
  vf_assert((destroyed == (unload & (obsolete != nullptr))) & (deletes == destroyed), "an object that was unregistered is deleted");
  vf_assert((vf_ts_held == 0) & (vf_ts_violations == 0), "locks are released");
  vf_cover("closed");
}
#endif
#ifdef VF_NATIVE
#include <cstdlib>
#include <vector>
VF_CONTRACT(symbol_of) { } VF_CONTRACT(object_of) { } VF_CONTRACT(object_of_pointer) { } VF_CONTRACT(find_symbol) { } VF_CONTRACT(function_name) { }
VF_CONTRACT(add_range) { } VF_CONTRACT(add_elf) { } VF_CONTRACT(registered_object) { } VF_CONTRACT(unregister_own) { } VF_CONTRACT(unregister_other) { }
VF_CONTRACT(callback) { } VF_CONTRACT(callback_names) { } VF_CONTRACT(callback_known) { } VF_CONTRACT(opening) { } VF_CONTRACT(closing) { }

// Objects that exist in a fake address space only, away from everything that is really loaded.
namespace {
struct Fake
{
  uintptr_t lbase;
  std::vector<std::pair<uintptr_t, uintptr_t>> segments, symbols;
  ObjectFile const* object;
};
bool overlap(std::vector<std::pair<uintptr_t, uintptr_t>> const& l, uintptr_t s, uintptr_t e)
{
  for (auto const& r : l)
    if (s < r.second && r.first < e)
      return true;
  return false;
}
}
VF_CONTRACT(history)
{
  uintptr_t const base = 0x1000;
  unsigned const width = 40;
  std::vector<Fake> live;
  static char names[40][8];
  static bool once = (libcwd::main_reached(), true);
  (void)once;
  LIBCWD_TSD_DECLARATION;
  auto lookups = [&] {
    for (uintptr_t x = base - 1; x < base + 3 * width; ++x)
    {
      Fake const* f = nullptr;
      int symbol = -1;
      for (Fake const& o : live)
        for (auto const& r : o.segments)
          if (r.first <= x && x < r.second)
            f = &o;
      ObjectFileInterface const* o = find_object_file((void const*)x, LIBCWD_TSD);
      vf_assert(o == (f ? f->object : nullptr), "the object file found is the one that contains the address");
      if (f)
        for (size_t i = 0; i < f->symbols.size(); ++i)
          if (f->symbols[i].first <= x && x < f->symbols[i].second)
            symbol = i;
      char const* name = libcwd::pc_mangled_function_name((void const*)x);
      vf_assert(std::strcmp(name, symbol < 0 ? libcwd::unknown_function_c : names[symbol]) == 0, "the name is that of the symbol at the address");
    }
  };
  for (unsigned n = 1 + vf_u8("operations") % 12; n > 0; --n)
  {
    switch (vf_u8("operation") % 4)
    {
      case 0:   // load
      case 3:
      {
        Fake f;
        f.lbase = base + vf_u8("load base") % width;
        bool used = false;
        for (Fake const& o : live)
          used |= o.lbase == f.lbase;
        ElfW(Phdr) phdr[4];
        std::memset(phdr, 0, sizeof phdr);
        unsigned count = vf_u8("program headers") % 5;
        for (unsigned i = 0; i < count; ++i)
        {
          unsigned char type = vf_u8("type") % 8;
          phdr[i].p_type = type == 7 ? PT_DYNAMIC : type == 6 ? PT_NULL : PT_LOAD;
          phdr[i].p_vaddr = vf_u8("address") % width;
          phdr[i].p_memsz = vf_u8("size") % 8;
          uintptr_t s = f.lbase + phdr[i].p_vaddr, e = s + phdr[i].p_memsz;
          bool bad = overlap(f.segments, s, e);
          for (Fake const& o : live)
            bad |= overlap(o.segments, s, e);
          if (bad)
            phdr[i].p_type = PT_NOTE;
          if (phdr[i].p_type == PT_LOAD && s < e && !used)
            f.segments.push_back({s, e});
        }
        dl_phdr_info info{};
        info.dlpi_addr = f.lbase;
        info.dlpi_name = "/nonexistent/object";
        info.dlpi_phdr = phdr;
        info.dlpi_phnum = count;
        int target = vf_u8("target") % 8;
        target = target > 2 ? 0 : target;
        ObjectFileRegistry::CallBackData data("/nonexistent/program", target == 0 ? 0 : target == 1 ? f.lbase : f.lbase + 1);
        int stop = ObjectFileRegistry::cb_dl_iterate_phdr(&info, sizeof info, &data);
        vf_assert((stop != 0) == (target == 1), "the search ends at the object that it is for");
        if (target != 2 && !used)
        {
          vf_assert((data.object_file_ != nullptr) == !f.segments.empty(), "the object found is reported");
          f.object = data.object_file_;
          if (!f.segments.empty())
            live.push_back(f);
        }
        else if (target == 2)
          vf_assert(!data.object_file_, "an object that is known or not asked for is not registered");
        else
          for (Fake const& o : live)
            vf_assert(o.lbase != f.lbase || data.object_file_ == o.object, "the object found is reported");
        break;
      }
      case 1:   // unload
        if (!live.empty())
        {
          size_t i = vf_u8("which") % live.size();
          ObjectFile const* o;
          o = live[i].object->write_locked_data()->unregister_object_file_ranges(live[i].object);
          vf_assert(o == live[i].object, "the object is obsolete when it had segments");
          live.erase(live.begin() + i);
          delete o;
        }
        break;
      case 2:   // a symbol
        if (!live.empty())
        {
          Fake& f = live[vf_u8("which") % live.size()];
          GElf_Sym sym{};
          sym.st_info = GELF_ST_INFO(vf_u8("binding") & 3, vf_bool("function") ? STT_FUNC : vf_bool("indirect") ? STT_GNU_IFUNC : STT_OBJECT);
          sym.st_shndx = vf_u8("section") % 4 ? 1 : SHN_UNDEF;
          sym.st_value = vf_u8("value") % width;
          sym.st_size = vf_u8("symbol size") % 12;
          int type = GELF_ST_TYPE(sym.st_info);
          uintptr_t s = f.lbase + sym.st_value, e = s + sym.st_size;
          if (overlap(f.symbols, s, e) || f.symbols.size() == 40)
            break;
          char* name = names[f.symbols.size()];
          std::snprintf(name, sizeof names[0], "s%u", (unsigned)f.symbols.size());
          bool add = s < e && sym.st_shndx != SHN_UNDEF && type != STT_OBJECT;
          char given[8];
          std::strcpy(given, vf_u8("named") % 8 ? name : "");
          f.object->write_locked_data()->add_elf_function_symbol(sym, given, f.lbase);
          add &= given[0] != 0;
          std::memset(given, 'x', 7);
          if (add)
            f.symbols.push_back({s, e});
        }
        break;
      default:
        break;
    }
    lookups();
  }
  while (!live.empty())
  {
    ObjectFile const* o = live.back().object;
    o->write_locked_data()->unregister_object_file_ranges(o);
    live.pop_back();
    delete o;
    lookups();
  }
}

// Real shared objects. The last one is a copy of its own for every execution, because RTLD_NODELETE can not be undone.
VF_CONTRACT(loading)
{
  struct { char const* file; char const* symbol; } libs[] = {{"libthread_db.so.1", "td_init"}, {"libresolv.so.2", "ns_name_ntop"}, {"libm.so.6", "lgamma"}, {nullptr, "__ctype_get_mb_cur_max"}};
  int const count = 4;
  void* addr[count] = {};
  std::vector<void*> handles[count];
  static bool once = (libcwd::main_reached(), true);
  (void)once;
  static int kept;
  char dir[] = "./vfXXXXXX", file[40] = "";
  if (kept < 2000 && vf_bool("copy") && mkdtemp(dir))
  {
    std::snprintf(file, sizeof file, "%s/l.so", dir);
    static char text[1 << 20];
    FILE* in = std::fopen("/lib/x86_64-linux-gnu/libBrokenLocale.so.1", "r");
    FILE* out = std::fopen(file, "w");
    size_t n = in ? std::fread(text, 1, sizeof text, in) : 0;
    if (out && std::fwrite(text, 1, n, out) == n && n)
      libs[3].file = file;
    if (in)
      std::fclose(in);
    if (out)
      std::fclose(out);
  }
  void* (*real_open)(char const*, int) = (void* (*)(char const*, int))dlsym(RTLD_NEXT, "dlopen");
  int (*real_close)(void*) = (int (*)(void*))dlsym(RTLD_NEXT, "dlclose");
  auto check = [&] {
    for (int i = 0; i < count; ++i)
    {
      if (!addr[i])
        continue;
      void* h = real_open(libs[i].file, RTLD_NOW | RTLD_NOLOAD);
      if (h)
        real_close(h);
      bool known = libcwd::pc_mangled_function_name(addr[i]) != libcwd::unknown_function_c;
      vf_assert(known == (h != nullptr), "addresses in exactly the objects that are loaded are attributed");
    }
  };
  for (unsigned n = 1 + vf_u8("operations") % 10; n > 0; --n)
  {
    int which = vf_u8("library") % count;
    if (vf_u8("operation") % 3)
    {
      if (!libs[which].file)
        continue;
      int flags = RTLD_NOW;
      unsigned f = vf_u8("flags") % 4;
      if (f == 0)
        flags |= RTLD_NOLOAD;
      if (f == 1 && which == 3)
      {
        flags |= RTLD_NODELETE;
        ++kept;
      }
      void* h = dlopen(libs[which].file, flags);
      if (h)
      {
        handles[which].push_back(h);
        addr[which] = dlsym(h, libs[which].symbol);
      }
    }
    else if (!handles[which].empty())
    {
      dlclose(handles[which].back());
      handles[which].pop_back();
    }
    check();
  }
  for (auto& l : handles)
    for (void* h : l)
    {
      dlclose(h);
      check();
    }
  if (file[0])
  {
    unlink(file);
    rmdir(dir);
  }
}
#endif
