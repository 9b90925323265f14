#include "cwd_sys.h"
#include <libcwd/debug.h>
#include <libcwd/type_info.h>
#include <typeinfo>

namespace wti {

struct S { int a[5]; };
struct Incomplete;
struct Abstract { virtual void f() = 0; virtual ~Abstract(); };
enum E : short { e1 };
union U { char c; double d[3]; };
template <typename A, typename B> struct P { A a; B b; };

} // namespace wti

using namespace wti;

// what the type info of a type asked for must be filled in with
#define TYPE(N, REF, ...) \
  using w_t_##N = __VA_ARGS__; \
  libcwd::TypeInfo const* w_e_##N() { return &libcwd::type_info_of<w_t_##N>(); } \
  char const* w_n_##N() { return typeid(w_t_##N).name(); } \
  char const* w_x_##N() { return typeid(libcwd_type_info_exact<w_t_##N>).name(); } \
  unsigned long w_s_##N() { return sizeof(w_t_##N); } \
  unsigned long w_r_##N() { return REF; }

TYPE(char, 0, char)
TYPE(int, 0, int)
TYPE(double, 0, double)
TYPE(S, 0, S)
TYPE(E, 0, E)
TYPE(U, 0, U)
TYPE(P, 0, P<S, char*>)
TYPE(arr, 0, S[3])
TYPE(carr, 0, S const[3])
TYPE(cref_arr, 0, char const(&)[6])
TYPE(cint, 0, int const)
TYPE(vint, 0, int volatile)
TYPE(ref, 0, int&)
TYPE(cref, 0, int const&)
TYPE(rref, 0, S&&)
TYPE(refptr, 0, S*&)
TYPE(abstract_ref, 0, Abstract const&)
TYPE(mptr, 0, int S::*)
TYPE(mfptr, 0, void (S::*)(int) const)
TYPE(ptr, sizeof(int), int*)
TYPE(ptrc, sizeof(S), S const*)
TYPE(ptrv, sizeof(S), S volatile*)
TYPE(ptrptr, sizeof(S*), S**)
TYPE(ptrE, sizeof(E), E*)
TYPE(ptrarr, sizeof(int[7]), int (*)[7])
TYPE(cptr, sizeof(int), int* const)
TYPE(vptr, sizeof(S), S* volatile)
TYPE(cvptr, sizeof(double), double* const volatile)
TYPE(cptrc, sizeof(S), S const* const)
TYPE(ptrabs, sizeof(Abstract), Abstract*)
TYPE(voidp, 0, void*)
TYPE(cvoidp, 0, void const*)
TYPE(voidpc, 0, void* const)
TYPE(voidpp, sizeof(void*), void**)
TYPE(incp, 0, Incomplete*)
TYPE(cincp, 0, Incomplete const* const)
TYPE(incpp, sizeof(void*), Incomplete**)
TYPE(fptr, 0, int (*)(char))
#undef TYPE

// asked for an object: references and top-level qualifiers are ignored
#define OBJ(N, REF, ...) \
  using w_u_##N = __VA_ARGS__; \
  extern w_u_##N w_obj_##N; \
  libcwd::TypeInfo const* w_e_o##N() { return &libcwd::type_info_of(w_obj_##N); } \
  char const* w_n_o##N() { return typeid(w_u_##N).name(); } \
  unsigned long w_s_o##N() { return sizeof(w_u_##N); } \
  unsigned long w_r_o##N() { return REF; }

OBJ(int, 0, int)
OBJ(cint, 0, int const)
OBJ(vint, 0, int volatile)
OBJ(S, 0, S)
OBJ(arr, 0, S[4])
OBJ(carr, 0, S const[4])
OBJ(ptr, sizeof(S), S*)
OBJ(ptrc, sizeof(S), S const*)
OBJ(cptr, sizeof(S), S* const)
OBJ(vptr, sizeof(S), S* volatile)
OBJ(ptrptr, sizeof(S*), S**)
OBJ(voidp, 0, void*)
OBJ(voidpc, 0, void* const)
OBJ(cvoidp, 0, void const*)
OBJ(incp, 0, Incomplete*)
OBJ(fptr, 0, int (*)(char))
OBJ(mptr, 0, int S::*)
#undef OBJ

// the accessors
unsigned long w_a_size(libcwd::TypeInfo const& t) { return t.size(); }
unsigned long w_a_ref(libcwd::TypeInfo const& t) { return t.ref_size(); }
char const* w_a_name(libcwd::TypeInfo const& t) { return t.name(); }
char const* w_a_dem(libcwd::TypeInfo const& t) { return t.demangled_name(); }
libcwd::TypeInfo const* w_unknown() { return &libcwd::unknown_type_info_c; }
