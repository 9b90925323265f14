#include "cwd_sys.h"
#include <libcwd/debug.h>
using namespace libcwd;
void w_sw_DebugObject_off(DebugObject& o) { o.off(); }
void w_sw_DebugObject_on(DebugObject& o) { o.on(); }
void w_sw_DebugObject_force_on(DebugObject& o, DebugObject::OnOffState& s) { o.force_on(s); }
void w_sw_DebugObject_restore(DebugObject& o, DebugObject::OnOffState const& s) { o.restore(s); }
bool w_sw_DebugObject_is_on(DebugObject& o) { LIBCWD_TSD_DECLARATION; return o.is_on(LIBCWD_TSD); }
void w_sw_Channel_off(Channel& o) { o.off(); }
void w_sw_Channel_on(Channel& o) { o.on(); }
void w_sw_Channel_force_on(Channel& o, Channel::OnOffState& s) { o.force_on(s, "LABEL"); }
void w_sw_Channel_restore(Channel& o, Channel::OnOffState const& s) { o.restore(s); }
bool w_sw_Channel_is_on(Channel& o) { return o.is_on(); }
// the conditional channel
Channel const& w_sw_select(Channel const& o, bool c) { return o(c); }
