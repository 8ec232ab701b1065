// Stand-in for libc++'s <__memory/shared_count.h> (libc++ is not installed): the control block with
// libc++'s members, layout and counting rules (counts start at zero, meaning one owner).
#pragma once
namespace std {
class __libcxx_shared_count {
 protected:
  long __shared_owners_;
  virtual ~__libcxx_shared_count() {}
 private:
  virtual void __on_zero_shared() noexcept = 0;
 public:
  explicit __libcxx_shared_count(long refs = 0) noexcept : __shared_owners_(refs) {}
  void __add_shared() noexcept { ++__shared_owners_; }
  bool __release_shared() noexcept {
    if (--__shared_owners_ == -1) { __on_zero_shared(); return true; }
    return false;
  }
  long use_count() const noexcept { return __shared_owners_ + 1; }
};
class __shared_weak_count : private __libcxx_shared_count {
  long __shared_weak_owners_;
 public:
  explicit __shared_weak_count(long refs = 0) noexcept : __libcxx_shared_count(refs), __shared_weak_owners_(refs) {}
 protected:
  ~__shared_weak_count() override {}
 public:
  void __add_shared() noexcept { __libcxx_shared_count::__add_shared(); }
  void __add_weak() noexcept { ++__shared_weak_owners_; }
  void __release_shared() noexcept { if (__libcxx_shared_count::__release_shared()) __release_weak(); }
  void __release_weak() noexcept { if (--__shared_weak_owners_ == -1) __on_zero_shared_weak(); }
  __shared_weak_count* lock() noexcept { if (__shared_owners_ == -1) return nullptr; ++__shared_owners_; return this; }
  long use_count() const noexcept { return __libcxx_shared_count::use_count(); }
 private:
  virtual void __on_zero_shared_weak() noexcept = 0;
};
}  // namespace std
