// Every form of a debug output statement, with parameters for everything that can vary.
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include <iostream>
#include <utils/macros.h>
using libcwd::Channel; using libcwd::FatalChannel; using libcwd::AlwaysChannel; using libcwd::DebugObject; using libcwd::control_flag_t;
extern int w_operand();
void w_one(DebugObject& o, Channel const& x) { LibcwDout(libcwd::channels, o, x, w_operand()); }
void w_one_flag(DebugObject& o, Channel const& x, control_flag_t f) { LibcwDout(libcwd::channels, o, x | f, "v" << w_operand()); }
void w_one_flags(DebugObject& o, Channel const& x, control_flag_t f, control_flag_t g) { LibcwDout(libcwd::channels, o, x | f | g, w_operand() << "v"); }
void w_two(DebugObject& o, Channel const& x, Channel const& y) { LibcwDout(libcwd::channels, o, x | y, w_operand()); }
void w_two_flags(DebugObject& o, Channel const& x, Channel const& y, control_flag_t f, control_flag_t g) { LibcwDout(libcwd::channels, o, x | f | y | g, w_operand()); }
void w_three(DebugObject& o, Channel const& x, Channel const& y, Channel const& z) { LibcwDout(libcwd::channels, o, x | y | z, w_operand()); }
void w_always(DebugObject& o, AlwaysChannel const& a, control_flag_t f) { LibcwDout(libcwd::channels, o, a | f, w_operand()); }
void w_always_chan(DebugObject& o, AlwaysChannel const& a, Channel const& y) { LibcwDout(libcwd::channels, o, a | y, w_operand()); }
void w_chan_fatal(DebugObject& o, Channel const& x, FatalChannel const& z) { LibcwDout(libcwd::channels, o, x | z, w_operand()); }
void w_fatal(DebugObject& o, FatalChannel const& z) { LibcwDoutFatal(libcwd::channels, o, z, w_operand()); }
void w_fatal_flag(DebugObject& o, FatalChannel const& z, control_flag_t f) { LibcwDoutFatal(libcwd::channels, o, z | f, w_operand()); }
// the macros for the default debug object; the channel is a parameter too
void w_Dout(Channel const& x, control_flag_t f) { Dout(x | f, w_operand()); }
void w_DoutFatal(FatalChannel const& z, control_flag_t f) { DoutFatal(z | f, w_operand()); }
void w_DoutEntering(Channel const& x, control_flag_t f) { DoutEntering(x | f, w_operand()); }
// the macro as it is used by the library itself
void w_library(Channel const& x, control_flag_t f) { __Dout(x | f, w_operand()); }
