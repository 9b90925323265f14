// Stand-in for CarloWood/threadsafe; see AIReadWriteMutex.h.
#pragma once

#include <utility>

namespace threadsafe {
namespace policy {

template <typename RWMutex>
struct ReadWrite
{
  RWMutex m;
  static constexpr bool is_rw = true;
  void rdlock() { m.rdlock(); }
  void rdunlock() { m.rdunlock(); }
  void wrlock() { m.wrlock(); }
  void wrunlock() { m.wrunlock(); }
  void rd2wrlock() { m.rd2wrlock(); }
  void rd2wryield() { m.rd2wryield(); }
  void wr2rdlock() { m.wr2rdlock(); }
};

template <typename Mutex>
struct Primitive
{
  Mutex m;
  static constexpr bool is_rw = false;
  void rdlock() { m.lock(); }
  void rdunlock() { m.unlock(); }
  void wrlock() { m.lock(); }
  void wrunlock() { m.unlock(); }
  void rd2wrlock() { }
  void rd2wryield() { }
  void wr2rdlock() { }
};

} // namespace policy

#ifdef LIBCWD_STUB_OPAQUE
// Visible to the analyses: which Unlocked object is locked, how, and where its data is used.
extern "C" {
void cwd_rdlock(void const* u, char const* type);
void cwd_rdunlock(void const* u) noexcept;
void cwd_wrlock(void const* u, char const* type);
void cwd_wrunlock(void const* u) noexcept;
void cwd_rd2wr(void const* u);
void cwd_rd2wryield(void const* u);
void cwd_wr2rd(void const* u) noexcept;
void const* cwd_rdata(void const* u) noexcept;
void* cwd_wdata(void* u) noexcept;
}
#define CWD_STUB(name, method) cwd_##name(u_)
#define CWD_LOCK(method) cwd_##method(u_, __PRETTY_FUNCTION__)
#define CWD_RDATA static_cast<T const*>(cwd_rdata(u_))
#define CWD_WDATA static_cast<T*>(cwd_wdata(u_))
#else
#define CWD_STUB(name, method) u_->policy_.method()
#define CWD_LOCK(method) u_->policy_.method()
#define CWD_RDATA (&u_->data_)
#define CWD_WDATA (&u_->data_)
#endif

template <typename T, typename POLICY>
class Unlocked
{
 private:
  T data_;
  mutable POLICY policy_;

 public:
  using data_type = T;
  using policy_type = POLICY;

  template <typename... ARGS>
  Unlocked(ARGS&&... args) : data_(std::forward<ARGS>(args)...)
  {
  }
  Unlocked(Unlocked const&) = delete;
  Unlocked& operator=(Unlocked const&) = delete;

  class wat;

  // Read access.
  class rat
  {
    friend class wat;

   private:
    Unlocked const* u_;

   public:
    explicit rat(Unlocked const& u) : u_(&u) { CWD_LOCK(rdlock); }
    rat(rat const&) = delete;
    rat& operator=(rat const&) = delete;
    ~rat() { CWD_STUB(rdunlock, rdunlock); }
    T const* operator->() const { return CWD_RDATA; }
    T const& operator*() const { return *CWD_RDATA; }
  };
  using crat = rat;

  // Write access.
  class wat
  {
   private:
    Unlocked* u_;
    bool upgraded_;

   public:
    explicit wat(Unlocked& u) : u_(&u), upgraded_(false) { CWD_LOCK(wrlock); }
    explicit wat(rat const& r) : u_(const_cast<Unlocked*>(r.u_)), upgraded_(true) { CWD_STUB(rd2wr, rd2wrlock); }
    wat(wat const&) = delete;
    wat& operator=(wat const&) = delete;
    ~wat()
    {
      if (upgraded_)
        CWD_STUB(wr2rd, wr2rdlock);
      else
        CWD_STUB(wrunlock, wrunlock);
    }
    T* operator->() const { return CWD_WDATA; }
    T& operator*() const { return *CWD_WDATA; }
  };

#ifdef LIBCWD_STUB_OPAQUE
  void rd2wryield() { cwd_rd2wryield(this); }
  void rd2wryield() const { cwd_rd2wryield(this); }
#else
  void rd2wryield() { policy_.rd2wryield(); }
  void rd2wryield() const { policy_.rd2wryield(); }
#endif
};

} // namespace threadsafe
