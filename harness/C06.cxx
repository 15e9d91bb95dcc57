// Contracts for libcwd::lockable_auto_ptr (include/libcwd/lockable_auto_ptr.h).
#include "cwd_sys.h"
#include "libcwd/debug.h"
#include "vf.h"
#include <new>
using libcwd::lockable_auto_ptr;

namespace {
// An object that counts how often it was destroyed.
struct Obj { int* destroyed; int pad; ~Obj() { ++*destroyed; } };
struct Base { int* destroyed; virtual ~Base() { ++*destroyed; } };
struct Derived : Base { int more; };
using Ptr = lockable_auto_ptr<Obj>;
using Arr = lockable_auto_ptr<Obj, true>;
int count[2];

Obj* make(int i) { count[i] = 0; Obj* o = new Obj; o->destroyed = &count[i]; return o; }
Obj* make_array(int i) { count[i] = 0; Obj* o = new Obj[1]; o->destroyed = &count[i]; return o; }

// Any state of one pointer: pointing at p (or at nothing), owner or not, locked or not.
template<class P> void set(P& x, Obj* p, bool owner, bool locked) { x.ptr_ = p; x.owner_ = p && owner; x.locked_ = locked; }
template<class P> union Raw { P p; Raw() { } ~Raw() { } };

template<class P> void assign_contract(Obj* a, Obj* b)
{
  Raw<P> l, r;
  // Which objects they point at: their own, or both at the second one (then at most one of them owns it).
  bool l_null = vf_bool("left is null"), r_null = vf_bool("right is null"), alias = vf_bool("same object");
  bool lo = vf_bool("left owns"), ro = vf_bool("right owns"), ll = vf_bool("left locked"), rl = vf_bool("right locked");
  Obj* lp = l_null ? nullptr : alias ? b : a;
  Obj* rp = r_null ? nullptr : b;
  lo = lo && lp; ro = ro && rp;
  bool same = lp && lp == rp;
  vf_assume(!(same && lo && ro));             // an object has one owner
  vf_assume(!(alias && r_null));
  set(l.p, lp, lo, ll);
  set(r.p, rp, ro, rl);
  P& res = l.p = r.p;
  vf_cover("assigned");
  vf_assert(&res == &l.p, "assignment returns the left side");
  vf_assert(l.p.get() == rp, "after assignment both point at the same object");
  vf_assert(r.p.get() == rp, "assignment leaves the source pointing at its object");
  vf_assert(l.p.is_owner() == ((ro && !rl) || (same && lo)), "assignment transfers ownership unless the source is locked");
  vf_assert(r.p.is_owner() == (ro && rl), "the source keeps ownership exactly if it is locked");
  vf_assert(r.p.locked_ == rl, "assignment does not change the lock of the source");
  if (same && lo) {
    vf_cover("alias of its own object");
    vf_assert(count[1] == 0, "assigning a non-owning copy back to the owner keeps the object alive");
  } else if (lo) {
    vf_cover("old object released");
    vf_assert(lp != a || count[0] == 1, "the object owned before is deleted exactly once");
  } else
    vf_assert(count[0] == 0, "an object that was not owned is not deleted");
  vf_assert(count[1] == 0, "the assigned object is not deleted");
}
}

VF_CONTRACT(construct)
{
  Obj* a = vf_bool("null") ? nullptr : make(0);
  bool isnull = !a;
  {
    Ptr p(a);
    vf_cover("constructed");
    vf_assert(p.get() == a && p.is_owner() == !isnull && !p.locked_, "a new pointer owns its object and is unlocked");
  }
  vf_assert(isnull || count[0] == 1, "destroying the owner deletes the object exactly once");
}

VF_CONTRACT(copy)
{
  Obj* a = vf_bool("null") ? nullptr : make(0);
  bool o = vf_bool("owns"), locked = vf_bool("locked");
  o = o && a;
  Raw<Ptr> r;
  set(r.p, a, o, locked);
  {
    Ptr c(r.p);
    vf_cover("copied");
    vf_assert(c.get() == a && r.p.get() == a, "a copy points at the same object");
    vf_assert(c.is_owner() == (o && !locked), "copying transfers ownership unless the source is locked");
    vf_assert(r.p.is_owner() == (o && locked), "the source keeps ownership exactly if it is locked");
    vf_assert(!c.locked_ && r.p.locked_ == locked, "a copy starts unlocked");
  }
  if (a) vf_assert(count[0] == (o && !locked ? 1 : 0), "the object dies with the copy exactly if the copy owned it");
}

VF_CONTRACT(copy_derived)
{
  count[0] = 0;
  Derived* d = new Derived;
  d->destroyed = &count[0];
  bool o = vf_bool("owns"), locked = vf_bool("locked");
  union R { lockable_auto_ptr<Derived> p; R() { } ~R() { } } r;
  r.p.ptr_ = d; r.p.owner_ = o; r.p.locked_ = locked;
  {
    lockable_auto_ptr<Base> c(r.p);
    vf_cover("copied");
    vf_assert(c.get() == d, "a copy points at the same object");
    vf_assert(c.is_owner() == (o && !locked) && r.p.is_owner() == (o && locked) && !c.locked_, "copying transfers ownership unless the source is locked");
  }
  vf_assert(count[0] == (o && !locked ? 1 : 0), "the object dies with the copy exactly if the copy owned it");
}

VF_CONTRACT(assign_derived)
{
  count[0] = count[1] = 0;
  Derived* d = new Derived;
  d->destroyed = &count[0];
  Base* b = new Base;
  b->destroyed = &count[1];
  bool o = vf_bool("owns"), locked = vf_bool("locked"), lo = vf_bool("left owns"), ll = vf_bool("left locked");
  union R { lockable_auto_ptr<Derived> p; R() { } ~R() { } } r;
  union L { lockable_auto_ptr<Base> p; L() { } ~L() { } } l;
  r.p.ptr_ = d; r.p.owner_ = o; r.p.locked_ = locked;
  l.p.ptr_ = b; l.p.owner_ = lo; l.p.locked_ = ll;
  l.p = r.p;
  vf_cover("assigned");
  vf_assert(l.p.get() == d && r.p.get() == d, "after assignment both point at the same object");
  vf_assert(l.p.is_owner() == (o && !locked) && r.p.is_owner() == (o && locked), "assignment transfers ownership unless the source is locked");
  vf_assert(count[0] == 0, "the assigned object is not deleted");
  vf_assert(count[1] == (lo ? 1 : 0), "the object owned before is deleted exactly once");
}

VF_CONTRACT(assign) { Obj* a = make(0); Obj* b = make(1); assign_contract<Ptr>(a, b); }

VF_CONTRACT(assign_self)
{
  Obj* a = vf_bool("null") ? nullptr : make(0);
  bool o = vf_bool("owns"), locked = vf_bool("locked");
  o = o && a;
  Raw<Ptr> l;
  set(l.p, a, o, locked);
  Ptr& same = l.p;
  l.p = same;
  vf_cover("assigned");
  vf_assert(l.p.get() == a && l.p.is_owner() == o && l.p.locked_ == locked, "self-assignment changes nothing");
  vf_assert(!a || count[0] == 0, "self-assignment deletes nothing");
}

VF_CONTRACT(destroy)
{
  Obj* a = vf_bool("null") ? nullptr : make(0);
  bool o = vf_bool("owns"), locked = vf_bool("locked");
  o = o && a;
  Raw<Ptr> l;
  set(l.p, a, o, locked);
  l.p.~Ptr();
  vf_cover("destroyed");
  if (a) vf_assert(count[0] == (o ? 1 : 0), "the destructor deletes the object exactly if it is the owner");
}

VF_CONTRACT(reset)
{
  Obj* a = vf_bool("null") ? nullptr : make(0);
  bool o = vf_bool("owns"), locked = vf_bool("locked");
  o = o && a;
  Raw<Ptr> l;
  set(l.p, a, o, locked);
  l.p.reset();
  vf_cover("reset");
  vf_assert(l.p.get() == nullptr && !l.p.is_owner(), "after reset the pointer is empty");
  if (a) vf_assert(count[0] == (o ? 1 : 0), "reset deletes the object exactly if it is the owner");
}

VF_CONTRACT(release)
{
  Obj* a = make(0);
  bool locked = vf_bool("locked");
  Raw<Ptr> l;
  set(l.p, a, true, locked);
  Obj* got = l.p.release();
  vf_cover("released");
  vf_assert(got == a && l.p.get() == a, "release returns the object and keeps pointing at it");
  vf_assert(!l.p.is_owner(), "after release the pointer is no owner");
  l.p.~Ptr();
  vf_assert(count[0] == 0, "a released object is not deleted");
}

VF_CONTRACT(lock)
{
  Obj* a = make(0);
  bool locked = vf_bool("locked");
  Raw<Ptr> l;
  set(l.p, a, true, locked);
  l.p.lock();
  vf_cover("locked");
  vf_assert(l.p.strict_owner() && l.p.is_owner() && l.p.get() == a, "lock makes the owner the strict owner");
  l.p.unlock();
  vf_assert(!l.p.strict_owner() && l.p.is_owner() && l.p.get() == a, "unlock undoes lock");
  vf_assert(count[0] == 0, "locking deletes nothing");
}

// The array flavour: storage obtained with new[] is released with delete[].
VF_CONTRACT(array_assign)
{
  char* a = new char[4];
  char* b = new char[4];
  bool o = vf_bool("left owns"), ro = vf_bool("right owns"), rl = vf_bool("right locked");
  union R { lockable_auto_ptr<char, true> p; R() { } ~R() { } } l, r;
  l.p.ptr_ = a; l.p.owner_ = o; l.p.locked_ = false;
  r.p.ptr_ = b; r.p.owner_ = ro; r.p.locked_ = rl;
  l.p = r.p;
  vf_cover("assigned");
  if (!o) a[0] = 1;       // still there
  b[0] = 1;
  vf_assert(l.p.get() == b && l.p.is_owner() == (ro && !rl) && r.p.is_owner() == (ro && rl), "assignment transfers ownership unless the source is locked");
  l.p.~lockable_auto_ptr<char, true>();
  r.p.~lockable_auto_ptr<char, true>();
  if (!ro) b[0] = 2;
}

VF_CONTRACT(array_reset)
{
  char* a = new char[4];
  bool o = vf_bool("owns"), lk = vf_bool("locked");
  union R { lockable_auto_ptr<char, true> p; R() { } ~R() { } } l;
  l.p.ptr_ = a; l.p.owner_ = o; l.p.locked_ = lk;
  l.p.reset();
  vf_cover("reset");
  if (!o) a[0] = 1;
  vf_assert(l.p.get() == nullptr && !l.p.is_owner(), "after reset the pointer is empty");
  l.p.~lockable_auto_ptr<char, true>();
}
