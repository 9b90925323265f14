// Compiled without CWDEBUG: fatal statements stop the program.
#include <cstdlib>
#include <iostream>
#include "nodebug.h"
extern int w_operand(), w_cond(), w_else(), w_after();
int w_fatal_DoutFatal() { DoutFatal(dc::no_such_name, "x" << w_operand()); w_after(); return 0; }
int w_fatal_LibcwDoutFatal() { LibcwDoutFatal(no_such_ns, no_such_do, dc::no_such_name, "x" << w_operand()); w_after(); return 0; }
int w_fatalif_DoutFatal() { if (w_cond()) DoutFatal(dc::no_such_name, w_operand()); else w_else(); w_after(); return 0; }
int w_fatalif_LibcwDoutFatal() { if (w_cond()) LibcwDoutFatal(no_such_ns, no_such_do, dc::no_such_name, w_operand()); else w_else(); w_after(); return 0; }
