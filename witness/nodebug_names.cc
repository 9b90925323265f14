// Compiled without CWDEBUG: nothing named inside these statements exists.
#include <cstdlib>
#include <iostream>
#include "nodebug.h"
#ifndef UNUSED_NAME
#define UNUSED_NAME no_such_name
#endif
extern int w_before(), w_after(), w_cond(), w_then(), w_else();
int w_names()
{
  w_before();
  Debug(UNUSED_NAME(1, 2); UNUSED_NAME.on());
  Dout(dc::UNUSED_NAME | UNUSED_NAME_cf, UNUSED_NAME << UNUSED_NAME(1, 2));
  Dout(dc::UNUSED_NAME, "text" << UNUSED_NAME, UNUSED_NAME);
  DoutEntering(dc::UNUSED_NAME, UNUSED_NAME << "x");
  ForAllDebugChannels(if (UNUSED_NAME.is_on()) UNUSED_NAME.off());
  ForAllDebugObjects(UNUSED_NAME.off());
  LibcwDebug(UNUSED_NAME, UNUSED_NAME(1, 2));
  LibcwDout(UNUSED_NAME, UNUSED_NAME, dc::UNUSED_NAME, UNUSED_NAME << 1);
  LibcwdForAllDebugChannels(UNUSED_NAME, UNUSED_NAME.off());
  LibcwdForAllDebugObjects(UNUSED_NAME, UNUSED_NAME.off());
  w_after();
  return 0;
}
#define SOLE(name, ...) int w_sole_##name() { if (w_cond()) __VA_ARGS__; else w_else(); w_after(); return 0; }
SOLE(Debug, Debug(UNUSED_NAME()))
SOLE(Dout, Dout(dc::UNUSED_NAME, UNUSED_NAME))
SOLE(ForAllDebugChannels, ForAllDebugChannels(UNUSED_NAME.on()))
SOLE(ForAllDebugObjects, ForAllDebugObjects(UNUSED_NAME.on()))
SOLE(LibcwDebug, LibcwDebug(UNUSED_NAME, UNUSED_NAME()))
SOLE(LibcwDout, LibcwDout(UNUSED_NAME, UNUSED_NAME, dc::UNUSED_NAME, UNUSED_NAME))
SOLE(LibcwdForAllDebugChannels, LibcwdForAllDebugChannels(UNUSED_NAME, UNUSED_NAME.on()))
SOLE(LibcwdForAllDebugObjects, LibcwdForAllDebugObjects(UNUSED_NAME, UNUSED_NAME.on()))
// a debug statement in the else branch and as the body of a loop
#define BODY(name, ...) int w_body_##name() { if (w_cond()) w_then(); else __VA_ARGS__; while (w_before()) __VA_ARGS__; w_after(); return 0; }
BODY(Debug, Debug(UNUSED_NAME()))
BODY(Dout, Dout(dc::UNUSED_NAME, UNUSED_NAME))
BODY(ForAllDebugChannels, ForAllDebugChannels(UNUSED_NAME.on()))
BODY(ForAllDebugObjects, ForAllDebugObjects(UNUSED_NAME.on()))
BODY(LibcwDebug, LibcwDebug(UNUSED_NAME, UNUSED_NAME()))
BODY(LibcwDout, LibcwDout(UNUSED_NAME, UNUSED_NAME, dc::UNUSED_NAME, UNUSED_NAME))
BODY(LibcwdForAllDebugChannels, LibcwdForAllDebugChannels(UNUSED_NAME, UNUSED_NAME.on()))
BODY(LibcwdForAllDebugObjects, LibcwdForAllDebugObjects(UNUSED_NAME, UNUSED_NAME.on()))
