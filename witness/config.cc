#include "cwd_sys.h"
#include <libcwd/debug.h>
void w_main_reached() { libcwd::main_reached(); }
