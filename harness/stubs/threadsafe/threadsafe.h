// Stand-in for the empty submodule include/threadsafe (assumed contract, see DESIGN.md).
// One thread, with a ghost typestate per object: vf_ts_violations counts every acquisition that
// would self-deadlock with a real read/write mutex and every release without a matching acquire.
#pragma once
#include "utils/macros.h"
#include <mutex>
#include <stdexcept>
#include <thread>
#include <chrono>
#include <utility>
extern "C" { extern int vf_ts_violations; extern int vf_ts_held; }
namespace threadsafe {
namespace policy {
template <class M> struct ReadWrite { static constexpr bool rw = true; };
template <class M> struct Primitive { static constexpr bool rw = false; };
}
template <class T, class P>
class Unlocked
{
 public:
  T data_;
  mutable int readers_ = 0;
  mutable int writer_ = 0;
  template <class... Args>
  Unlocked(Args&&... args) : data_(std::forward<Args>(args)...) { }
  void rd2wryield() { }

  class rat
  {
   public:
    Unlocked const* u_;
    rat(Unlocked const& u) : u_(&u) { if (u.writer_) ++vf_ts_violations; ++u.readers_; ++vf_ts_held; }
    rat(rat const&) = delete;
    ~rat() { --u_->readers_; --vf_ts_held; }
    T const* operator->() const { return &u_->data_; }
    T const& operator*() const { return u_->data_; }
  };
  using crat = rat;
  class wat
  {
   public:
    Unlocked* u_;
    bool upgraded_ = false;
    wat(Unlocked& u) : u_(&u) { if (u.writer_ || u.readers_) ++vf_ts_violations; ++u.writer_; ++vf_ts_held; }
    wat(rat const& r) : u_(const_cast<Unlocked*>(r.u_)), upgraded_(true) { if (u_->writer_ || u_->readers_ != 1) ++vf_ts_violations; ++u_->writer_; ++vf_ts_held; }
    wat(wat const&) = delete;
    ~wat() { --u_->writer_; --vf_ts_held; }
    T* operator->() const { return &u_->data_; }
    T& operator*() const { return u_->data_; }
  };
};
} // namespace threadsafe
