// Instantiates the user-lock adapter and the public accessors of the output stream of a debug object.
#include <libcwd/debug.h>
#include <libcwd/set_ostream.inl.h>

struct ProbeLock
{
  bool try_lock();
  void lock();
  void unlock();
};

void witness_set_pair(libcwd::DebugObject& d, std::ostream* os, ProbeLock* l) { d.set_ostream(os, l); }
void witness_set(libcwd::DebugObject& d, std::ostream* os) { d.set_ostream(os); }
std::ostream* witness_get(libcwd::DebugObject& d) { return d.get_ostream(); }
bool witness_has(libcwd::DebugObject& d) { return d.has_mutex(); }
