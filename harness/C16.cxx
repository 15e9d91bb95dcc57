// Contracts for the resolution of overlapping function symbol ranges (include/dwarf_symbol_ranges.h).
#include "vf.h"
#include <algorithm>
#include <initializer_list>
#include <iterator>
#include <map>
#include <utility>
#include <vector>
#include <elfutils/libdw.h>

#ifndef VF_NATIVE
// The containers are described at one arbitrary address X: "the element that covers X" is real, every other element
// is arbitrary each time that it is looked at, except for what is guaranteed by each insertion (and asserted there).
namespace libcwd::dwarf { class SymbolRange; }
namespace {
uint64_t X;             // an arbitrary address
uint64_t S, E;          // the range that is inserted
uint64_t covered;       // an element of the map covers X
uint64_t pending;       // a pending piece covers X
uint64_t place;         // ... with this index
uint64_t pieces;        // number of pending pieces
uint64_t new_is_elf;
uint64_t removal_first, removal_last;
uint64_t passed;        // the element that covered X on entry was passed
uint64_t owned;         // a fragment of the new symbol was inserted
uint64_t new_at_x;      // ... that covers X
struct Rec { uint64_t first, last, symbol_first, symbol_last; uint64_t name; uint64_t elf; };
Rec entry;              // the element that covers X
char const names[] = "ono";
enum { other_name, new_name, old_name };
char die_bytes[1];
}

template <class K, class V> struct vf_map
{
  using key_type = K;
  using mapped_type = V;
  using size_type = size_t;
  struct value_type
  {
    K first;
    V second;
    value_type(K f, V const& s) : first(f), second(s) { }
    value_type(std::pair<K const, V> const& p) : first(p.first), second(p.second) { }
    value_type(std::pair<K, V> const& p) : first(p.first), second(p.second) { }
  };
  static V make(Rec const& r)
  {
    Dwarf_Die die{};
    die.addr = die_bytes;
    return V(r.first, r.last, r.symbol_first, r.symbol_last, names + r.name, r.elf ? nullptr : &die);
  }
  struct iterator
  {
    using iterator_category = std::bidirectional_iterator_tag;
    using difference_type = std::ptrdiff_t;
    using value_type = vf_map::value_type;
    using pointer = value_type*;
    using reference = value_type&;
    uint64_t which;             // 0: the element that covers X, 1: another one, 2: the end
    uint64_t lo, ls, hi;        // it ends after lo, starts at or after ls and ends at or before hi
    uint64_t have;              // the element was looked at
    alignas(V) char bytes[sizeof(value_type)];
    iterator(uint64_t lo_, uint64_t ls_) { forward(lo_, ls_); }
    iterator() : which(2), lo(0), ls(0), hi(0), have(0) { }
    iterator(iterator const& o) : which(o.which), lo(o.lo), ls(o.ls), hi(o.hi), have(o.have) { if (have) __builtin_memcpy(bytes, o.bytes, sizeof bytes); }
    iterator& operator=(iterator const& o)
    {
      which = o.which; lo = o.lo; ls = o.ls; hi = o.hi; have = o.have;
      if (have)
        __builtin_memcpy(bytes, o.bytes, sizeof bytes);
      return *this;
    }
    void set(Rec const& r)
    {
      new (bytes) value_type(r.last, make(r));
      have = 1;
    }
    value_type& e() const
    {
      vf_assert(which != 2, "only elements of the map are used");
      if (!have)
      {
        if (which == 0)
        {
          vf_assert(covered != 0, "only elements of the map are used");
          const_cast<iterator*>(this)->set(entry);
        }
        else
        {
          Rec r;
          r.first = vf_u64("start of another range");
          r.last = vf_u64("end of another range");
          r.symbol_first = vf_u64("start of another symbol");
          r.symbol_last = vf_u64("end of another symbol");
          r.elf = vf_u8("elf") & 1;
          r.name = other_name;
          vf_assume((r.first < r.last) & (r.symbol_first <= r.first) & (r.last <= r.symbol_last) & (r.last > lo) & (r.first >= ls) & (r.last <= hi));
          vf_assume((X < r.first) | (X >= r.last));
          vf_assume((covered == 0) | (r.last <= entry.first) | (r.first >= entry.last));
          const_cast<iterator*>(this)->set(r);
        }
      }
      return *(value_type*)bytes;
    }
    // The first element that ends after lo.
    void forward(uint64_t lo_, uint64_t ls_)
    {
      bool ahead = (covered != 0) & (entry.last > lo_);
      lo = lo_;
      ls = ls_;
      hi = ahead ? entry.first : ~(uint64_t)0;
      have = 0;
      which = vf_u8("next") & 3;
      vf_assume((which == 1) | (which == (ahead ? 0 : 2)));
    }
    iterator& operator++()
    {
      uint64_t last = e().first;
      if (which == 0)
        passed = 1;
      forward(last, last);
      return *this;
    }
    iterator operator++(int) { iterator t = *this; ++*this; return t; }
    iterator& operator--()
    {
      uint64_t before = which == 2 ? ~(uint64_t)0 : e().second.start_addr();
      bool behind = (covered != 0) & (entry.last <= before);
      lo = ls = behind ? entry.last : 0;
      hi = before;
      have = 0;
      which = vf_u8("previous") & 1;
      vf_assume((which == 1) | behind);
      return *this;
    }
    value_type* operator->() const { return &e(); }
    value_type& operator*() const { return e(); }
    bool operator==(iterator const& o) const
    {
      if ((which == 2) | (o.which == 2))
        return which == o.which;
      return e().first == o.e().first;
    }
    bool operator!=(iterator const& o) const { return !(*this == o); }
  };
  using const_iterator = iterator;
  iterator begin() const { return iterator(0, 0); }
  iterator end() const { return iterator(); }
  iterator cbegin() const { return begin(); }
  iterator cend() const { return end(); }
  iterator upper_bound(K k) const { return iterator(k, 0); }
  iterator lower_bound(K k) const
  {
    if (k == 0)
      return begin();
    return iterator(k - 1, 0);
  }
  iterator erase(iterator it)
  {
    uint64_t last = it.e().first;
    if (it.which == 0)
    {
      vf_assert((covered != 0) & (entry.last == last), "only elements of the map are erased");
      covered = 0;
      passed = 1;
    }
    iterator next = it;
    next.forward(last, last);
    return next;
  }
  iterator insert_(K k, V const& v)
  {
    Rec r{v.start_addr_, v.end_addr_, v.symbol_start_addr_, v.symbol_end_addr_, (uint64_t)(v.name_ - names), v.die_.addr == nullptr};
    vf_assert(k == r.last, "every range is stored under its end");
    vf_assert((r.first < r.last) & (r.symbol_first <= r.first) & (r.last <= r.symbol_last), "only nonempty fragments of the symbol are stored");
    bool isnew = r.name == new_name;
    bool at = (r.first <= X) & (X < r.last);
    vf_assert(!isnew | ((r.symbol_first == S) & (r.symbol_last == E) & (r.elf == new_is_elf)), "the fragments of the new symbol know its full range and origin");
    vf_assert(!(at & (covered != 0)), "the stored ranges stay disjoint");
    owned |= isnew;
    covered |= at;
    new_at_x = at ? isnew : new_at_x;
    entry.first = at ? r.first : entry.first;
    entry.last = at ? r.last : entry.last;
    entry.symbol_first = at ? r.symbol_first : entry.symbol_first;
    entry.symbol_last = at ? r.symbol_last : entry.symbol_last;
    entry.elf = at ? r.elf : entry.elf;
    entry.name = at ? r.name : entry.name;
    iterator it;
    it.set(r);
    it.which = at ? 0 : 1;
    it.lo = it.ls = it.hi = 0;
    return it;
  }
  template <class... A> std::pair<iterator, bool> emplace(K k, A&&... a) { return {insert_(k, V(std::forward<A>(a)...)), true}; }
  template <class... A> std::pair<iterator, bool> try_emplace(K k, A&&... a) { return {insert_(k, V(std::forward<A>(a)...)), true}; }
  template <class... A> iterator emplace_hint(iterator, K k, A&&... a) { return insert_(k, V(std::forward<A>(a)...)); }
  std::pair<iterator, bool> insert(value_type const& v) { return {insert_(v.first, v.second), true}; }
  std::pair<iterator, bool> insert_or_assign(K k, V const& v) { return {insert_(k, v), true}; }
};
template <> class std::map<uintptr_t, libcwd::dwarf::SymbolRange> : public vf_map<uintptr_t, libcwd::dwarf::SymbolRange> { };

template <> class std::vector<std::pair<uintptr_t, uintptr_t>>
{
 public:
  using value_type = std::pair<uintptr_t, uintptr_t>;
  using size_type = size_t;
  static constexpr uint64_t none = ~(uint64_t)0;
  uint64_t n;           // number of pieces
  uint64_t k;           // index of the piece that covers X, if any
  uint64_t covers;      // there is one
  uint64_t cur_at;      // index of the other piece that was looked at
  value_type px, cur;
  vector() : n(0), k(0), covers(0), cur_at(none) { }
  vector(std::initializer_list<value_type> l) : vector()
  {
    for (auto p = l.begin(); p != l.end(); ++p)
      push_back(*p);
  }
  void check(bool there, value_type const& v)
  {
    vf_assert(!there | (v.first < v.second), "pending pieces are not empty");
    vf_assert(!there | ((S <= v.first) & (v.second <= E)), "pending pieces lie in the new range");
  }
  void cover(bool there, uint64_t i, value_type const& v)
  {
    bool in = there & (v.first <= X) & (X < v.second);
    vf_assert(!(in & (covers != 0)), "pending pieces are disjoint");
    covers = in ? 1 : covers;
    k = in ? i : k;
    px.first = in ? v.first : px.first;
    px.second = in ? v.second : px.second;
  }
  // What was done to the pieces that were handed out.
  void settle()
  {
    check(covers != 0, px);
    covers = (covers != 0) & (px.first <= X) & (X < px.second);
    check(cur_at != none, cur);
    cover(cur_at != none, cur_at, cur);
    cur_at = none;
    pending = covers;
    place = k;
    pieces = n;
  }
  value_type& at_(uint64_t i)
  {
    vf_assert(i < n, "only pending pieces are used");
    if ((covers != 0) & (i == k))
      return px;
    if (i != cur_at)
    {
      settle();
      cur.first = vf_u64("start of another piece");
      cur.second = vf_u64("end of another piece");
      vf_assume((S <= cur.first) & (cur.first < cur.second) & (cur.second <= E) & ((X < cur.first) | (X >= cur.second)));
      cur_at = i;
    }
    return cur;
  }
  struct iterator
  {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = vector::value_type;
    using difference_type = std::ptrdiff_t;
    using pointer = value_type*;
    using reference = value_type&;
    vector* v;
    uint64_t i;
    value_type& operator*() const { return v->at_(i); }
    value_type* operator->() const { return &v->at_(i); }
    value_type& operator[](size_t d) const { return v->at_(i + d); }
    iterator& operator++() { v->settle(); ++i; return *this; }
    iterator& operator--() { v->settle(); --i; return *this; }
    iterator operator++(int) { iterator t = *this; v->settle(); ++i; return t; }
    iterator operator--(int) { iterator t = *this; v->settle(); --i; return t; }
    iterator& operator+=(difference_type d) { v->settle(); i += d; return *this; }
    iterator operator+(difference_type d) const { return {v, i + d}; }
    iterator operator-(difference_type d) const { return {v, i - d}; }
    difference_type operator-(iterator const& o) const { return i - o.i; }
    bool operator==(iterator const& o) const { return i == o.i; }
    bool operator!=(iterator const& o) const { return i != o.i; }
    bool operator<(iterator const& o) const { return i < o.i; }
  };
  using const_iterator = iterator;
  iterator begin() const { const_cast<vector*>(this)->settle(); return {const_cast<vector*>(this), 0}; }
  iterator end() const { const_cast<vector*>(this)->settle(); return {const_cast<vector*>(this), n}; }
  iterator cbegin() const { return begin(); }
  iterator cend() const { return end(); }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  void reserve(size_t) { }
  value_type& operator[](size_t i) { return at_(i); }
  value_type& back() { return at_(n - 1); }
  value_type& front() { return at_(0); }
  iterator insert(iterator it, value_type const& v)
  {
    value_type const w = v;
    settle();
    check(true, w);
    vf_assert(it.i <= n, "a piece is inserted inside the vector");
    vf_assume(n < (uint64_t)1 << 40);
    k += (covers != 0) & (k >= it.i);
    ++n;
    cover(true, it.i, w);
    pending = covers;
    place = k;
    pieces = n;
    return {this, it.i};
  }
  template <class... A> iterator emplace(iterator it, A&&... a) { return insert(it, value_type(std::forward<A>(a)...)); }
  void push_back(value_type const& v) { insert({this, n}, v); }
  template <class... A> void emplace_back(A&&... a) { insert({this, n}, value_type(std::forward<A>(a)...)); }
  iterator erase(iterator it)
  {
    settle();
    vf_assert(it.i < n, "only pending pieces are erased");
    --n;
    bool at = (covers != 0) & (it.i == k);
    k -= it.i < k;
    covers = at ? 0 : covers;
    pending = covers;
    place = k;
    pieces = n;
    return {this, it.i};
  }
  void pop_back() { erase({this, n - 1}); }
  void clear() { n = covers = pending = 0; cur_at = none; }
};
#endif

#include "include/dwarf_symbol_ranges.h"
using namespace libcwd::dwarf;

LocationLookupResult SymbolRange::lookup_location(uintptr_t, uintptr_t) const { return {}; }

// The documented preference: DWARF beats ELF, otherwise the smaller original symbol wins and the existing range stays on a tie.
static bool wins(bool existing_elf, uint64_t existing_size, bool new_elf, uint64_t new_size)
{
  return ((existing_elf != new_elf) & existing_elf) | ((existing_elf == new_elf) & (new_size < existing_size));
}

#ifdef VF_NATIVE
#include <cstring>
#include <string>
#define CASE(n) VF_CONTRACT(n##_elf) { } VF_CONTRACT(n##_dwarf) { }
VF_CONTRACT(remove_pending) { }
CASE(existing_loses) CASE(existing_wins) CASE(fresh_address) CASE(covered_below) CASE(covered_above) CASE(outside_fresh)
namespace libcwd::_private_ {
void assert_fail(char const*, char const*, int, char const*) { vf_assert(false, "no assertion fails"); std::abort(); }
}

VF_CONTRACT(history)
{
  struct Ins { uint64_t s, e; bool elf; char const* name; };
  std::vector<Ins> done;
  static char names[16][4];
  FunctionSymbolRanges map;
  static char bytes[1];
  Dwarf_Die die{};
  die.addr = bytes;
  uint64_t const lo = vf_bool("at the top") ? ~(uint64_t)0 - 24 : 0;
  int owner[25];
  std::fill(owner, owner + 25, -1);
  for (unsigned n = 1 + vf_u8("insertions") % 10; n > 0; --n)
  {
    Ins i;
    i.s = lo + vf_u8("start") % 25;
    i.e = lo + vf_u8("end") % 25;
    i.elf = vf_bool("elf");
    int me = done.size();
    i.name = names[me];
    names[me][0] = 'a' + me;
    done.push_back(i);
    bool expected = false;
    for (uint64_t x = i.s; x < i.e; ++x)
    {
      int& o = owner[x - lo];
      if (o < 0 || wins(done[o].elf, done[o].e - done[o].s, i.elf, i.e - i.s))
      {
        o = me;
        expected = true;
      }
    }
    bool inserted = insert_function_symbol_range(map, i.s, i.e, i.name, i.elf ? nullptr : &die);
    vf_assert(inserted == expected, "true is returned exactly when a fragment was inserted");
    uint64_t last = 0;
    int now[25];
    std::fill(now, now + 25, -1);
    for (auto const& [key, r] : map)
    {
      vf_assert(key == r.end_addr(), "every range is stored under its end");
      vf_assert(r.start_addr() < r.end_addr() && last <= r.start_addr(), "stored ranges are not empty, disjoint and sorted");
      last = r.end_addr();
      int who = r.name()[0] - 'a';
      vf_assert(r.size() == done[who].e - done[who].s && r.is_elf_symbol() == done[who].elf, "the fragments know the original symbol");
      for (uint64_t x = r.start_addr(); x < r.end_addr(); ++x)
      {
        vf_assert(lo <= x && x - lo < 25, "an address is covered exactly when an inserted range covers it");
        now[x - lo] = who;
      }
    }
    for (int x = 0; x < 25; ++x)
    {
      vf_assert((now[x] < 0) == (owner[x] < 0), "an address is covered exactly when an inserted range covers it");
      vf_assert(now[x] == owner[x], "every address belongs to the range that wins there");
    }
  }
}
#else
VF_CONTRACT(history) { }
namespace {
FunctionSymbolRanges function_symbols;

struct World
{
  bool in, was, new_elf;
  Rec old;
  World(bool in_, bool was_, bool new_elf_) : in(in_), was(was_), new_elf(new_elf_)
  {
    X = vf_u64("address");
    S = vf_u64("start");
    E = vf_u64("end");
    covered = was;
    entry.first = vf_u64("start of the range at the address");
    entry.last = vf_u64("end of the range at the address");
    entry.symbol_first = vf_u64("start of the symbol at the address");
    entry.symbol_last = vf_u64("end of the symbol at the address");
    entry.elf = vf_u8("elf") & 1;
    entry.name = old_name;
    vf_assume((entry.symbol_first <= entry.first) & (entry.first <= X) & (X < entry.last) & (entry.last <= entry.symbol_last));
    old = entry;
    pending = passed = owned = new_at_x = 0;
    new_is_elf = new_elf;
    vf_assume(in == ((S <= X) & (X < E)));
  }
  bool call()
  {
    Dwarf_Die die{};
    die.addr = die_bytes;
    return insert_function_symbol_range(function_symbols, S, E, names + new_name, new_elf ? nullptr : &die);
  }
  void same_symbol()
  {
    vf_assert((covered != 0) & (entry.name == old_name) & (entry.symbol_first == old.symbol_first) & (entry.symbol_last == old.symbol_last) & (entry.elf == old.elf), "every address belongs to the range that wins there");
  }
  void check(bool result, bool new_wins)
  {
    if (new_wins)
    {
      vf_assert((covered != 0) & new_at_x, "every address belongs to the range that wins there");
      vf_assert((entry.symbol_first == S) & (entry.symbol_last == E) & (entry.elf == new_elf), "the fragments know the original symbol");
    }
    else if (was)
      same_symbol();
    else
      vf_assert(!covered, "an address is covered exactly when an inserted range covers it");
    if (covered)
      vf_assert((entry.first <= X) & (X < entry.last), "an address is covered exactly when an inserted range covers it");
    vf_assert((result == (owned != 0)), "true is returned exactly when a fragment was inserted");
    vf_cover("inserted");
  }
};
}
extern "C" void vf_remove(std::vector<detail::PendingSymbolPiece>& v, uint64_t remove_start, uint64_t remove_end)
{
  v.settle();
  v.covers = (v.covers != 0) & ((X < remove_start) | (X >= remove_end));
  v.n = vf_size("pieces left");
  v.k = vf_size("index of the piece at the address");
  v.px.first = vf_u64("start of the piece at the address");
  v.px.second = vf_u64("end of the piece at the address");
  vf_assume((v.covers == 0) | ((v.k < v.n) & (S <= v.px.first) & (v.px.first <= X) & (X < v.px.second) & (v.px.second <= E)));
  v.settle();
}
VF_CONTRACT(remove_pending)
{
  X = vf_u64("address");
  S = vf_u64("start");
  E = vf_u64("end");
  uint64_t first = vf_u64("start of removal"), last = vf_u64("end of removal");
  std::vector<detail::PendingSymbolPiece> v;
  v.n = vf_size("pieces");
  v.k = vf_size("index of the piece at the address");
  v.covers = vf_bool("address is pending");
  v.px.first = vf_u64("start of the piece at the address");
  v.px.second = vf_u64("end of the piece at the address");
  vf_assume((v.covers == 0) | ((v.k < v.n) & (S <= v.px.first) & (v.px.first <= X) & (X < v.px.second) & (v.px.second <= E)));
  bool was = v.covers;
  removal_first = first;
  removal_last = last;
  v.settle();
  detail::remove_pending_symbol_subrange(v, first, last);
  v.settle();
  vf_assert((v.covers != 0) == (was & ((X < first) | (X >= last))), "exactly the removed part is no longer pending");
  vf_assert((v.covers == 0) | (v.k < v.n), "the pieces are those of the vector");
  vf_cover("removed");
}
#define CASE(n) static void case_##n(bool elf); VF_CONTRACT(n##_elf) { case_##n(true); } VF_CONTRACT(n##_dwarf) { case_##n(false); } static void case_##n(bool elf)
// X in the new range and in an existing one that loses.
CASE(existing_loses)
{
  World w(true, true, elf);
  vf_assume(wins(w.old.elf, w.old.symbol_last - w.old.symbol_first, w.new_elf, E - S));
  w.check(w.call(), true);
}
CASE(existing_wins)
{
  World w(true, true, elf);
  vf_assume(!wins(w.old.elf, w.old.symbol_last - w.old.symbol_first, w.new_elf, E - S));
  w.check(w.call(), false);
}
CASE(fresh_address)
{
  World w(true, false, elf);
  w.check(w.call(), true);
}
// X outside the new range.
CASE(covered_below)
{
  World w(false, true, elf);
  vf_assume(X < S);
  w.check(w.call(), false);
}
CASE(covered_above)
{
  World w(false, true, elf);
  vf_assume(X >= S);
  w.check(w.call(), false);
}
CASE(outside_fresh)
{
  World w(false, false, elf);
  w.check(w.call(), false);
}
#endif
