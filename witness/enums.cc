// the values of the enumerations that the checks refer to
#include "sys.h"
#include "debug.h"
#include "libcwd/init_functions.h"
extern "C" {
extern const int vp_default, vp_from_rcfile, vp_copy_from_main, vp_debug_off;
const int vp_default = libcwd::init_functions::thread_init_default;
const int vp_from_rcfile = libcwd::init_functions::from_rcfile;
const int vp_copy_from_main = libcwd::init_functions::copy_from_main;
const int vp_debug_off = libcwd::init_functions::debug_off;
}
