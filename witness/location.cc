#include "cwd_sys.h"
#include <libcwd/debug.h>
#include <new>
#include <iostream>
using namespace libcwd;
extern Location l_a, l_b;
void w_default() { new (&l_a) Location; }
void w_copy() { new (&l_a) Location(l_b); }
void w_assign() { l_a = l_b; }
void w_self() { l_a = l_a; }
void w_destroy() { l_a.~Location(); }
void w_clear() { l_a.clear(); }
void w_lookup(void* pc) { l_a.pc_location(pc); }
void w_tsdlookup(void* pc, LIBCWD_TSD_PARAM) { l_a.pc_location(pc, LIBCWD_TSD); }
void w_construct(void* pc) { new (&l_a) Location(pc); }
void w_tsdconstruct(void* pc, LIBCWD_TSD_PARAM) { new (&l_a) Location(pc, LIBCWD_TSD); }
void w_keep() { l_a.lock_ownership(); }
bool w_r_known() { return l_a.is_known(); }
unsigned int w_r_line() { return l_a.line(); }
void w_r_file(std::string* s) { new (s) std::string(l_a.file()); }
size_t w_r_filename_length() { return l_a.filename_length(); }
size_t w_r_filepath_length() { return l_a.filepath_length(); }
void w_r_print_path(std::ostream& os) { l_a.print_filepath_on(os); }
void w_r_print_name(std::ostream& os) { l_a.print_filename_on(os); }
void w_r_print(std::ostream& os) { os << l_a; }
void const* w_r_unknown() { return l_a.unknown_pc(); }
bool w_r_delayed() { return l_a.initialization_delayed(); }
