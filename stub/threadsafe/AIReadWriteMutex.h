// Stand-in for CarloWood/threadsafe (an empty submodule in this checkout).
//
// It has the interface of the real header as far as libcwd uses it.  With
// LIBCWD_STUB_OPAQUE (static analysis) the lock operations are only declared,
// so that they are visible as calls in the compiled program.  Without it they
// work, so that programs can be linked and run.
#pragma once

#include <condition_variable>
#include <exception>
#include <mutex>
#include "debug.h"
#include "utils/macros.h"

class AIReadWriteMutex
{
#ifdef LIBCWD_STUB_OPAQUE
  int state_[4];

 public:
  void rdlock(bool high_priority = false);
  void rdunlock() noexcept;
  void rd2wrlock();
  void rd2wryield();
  void wrlock();
  void wrunlock() noexcept;
  void wr2rdlock() noexcept;
#else
 private:
  std::mutex m_;
  std::condition_variable cv_;
  int readers_ = 0;
  bool writer_ = false;
  bool upgrading_ = false;

 public:
  void rdlock(bool = false)
  {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [this] { return !writer_ && !upgrading_; });
    ++readers_;
  }
  void rdunlock() noexcept
  {
    std::unique_lock<std::mutex> l(m_);
    --readers_;
    cv_.notify_all();
  }
  void rd2wrlock()
  {
    std::unique_lock<std::mutex> l(m_);
    if (upgrading_)
      throw std::exception();
    upgrading_ = true;
    cv_.wait(l, [this] { return readers_ == 1; });
    readers_ = 0;
    writer_ = true;
    upgrading_ = false;
  }
  void rd2wryield()
  {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [this] { return !upgrading_ && !writer_; });
  }
  void wrlock()
  {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [this] { return !writer_ && readers_ == 0; });
    writer_ = true;
  }
  void wrunlock() noexcept
  {
    std::unique_lock<std::mutex> l(m_);
    writer_ = false;
    cv_.notify_all();
  }
  void wr2rdlock() noexcept
  {
    std::unique_lock<std::mutex> l(m_);
    writer_ = false;
    readers_ = 1;
    cv_.notify_all();
  }
#endif
};
