#include "cwd_sys.h"
#include <libcwd/debug.h>
#include <libcwd/lockable_auto_ptr.h>
#include <new>
using namespace libcwd;

struct Base { int x; };
struct Derived : Base { int y; };

template<class X, bool array> using L = lockable_auto_ptr<X, array>;
extern L<char, true> a_a, b_a;
extern L<int, false> a_s, b_s;
extern L<Base, false> a_d;          // from
extern L<Derived, false> b_d;

#define OPS(k, A, X) \
  void w_##k##_construct(X* p) { new (&a_##k) A(p); } \
  void w_##k##_default() { new (&a_##k) A; } \
  void w_##k##_copy() { new (&a_##k) A(b_##k); } \
  void w_##k##_assign() { a_##k = b_##k; } \
  void w_##k##_self() { a_##k = a_##k; } \
  void w_##k##_destroy() { a_##k.~A(); } \
  void w_##k##_reset() { a_##k.reset(); } \
  X* w_##k##_release() { return a_##k.release(); } \
  void w_##k##_lock() { a_##k.lock(); } \
  void w_##k##_unlock() { a_##k.unlock(); } \
  X* w_##k##_get() { return a_##k.get(); } \
  X* w_##k##_arrow() { return a_##k.operator->(); } \
  X* w_##k##_star() { return &*a_##k; } \
  bool w_##k##_owner() { return a_##k.is_owner(); } \
  bool w_##k##_strict() { return a_##k.strict_owner(); }

using LA = L<char, true>;
using LS = L<int, false>;
OPS(a, LA, char)
OPS(s, LS, int)
using LB = L<Base, false>;
void w_d_copy() { new (&a_d) LB(b_d); }
void w_d_assign() { a_d = b_d; }
