#include "cwd_sys.h"
#include <libcwd/debug.h>
#include <new>
using namespace libcwd;
// a copy as it is made by push_margin and push_marker
void w_ds_element(DebugStringStackElement* e, DebugString const& ds) { new (e) DebugStringStackElement(ds); }
