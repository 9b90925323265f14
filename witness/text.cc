// Instantiations of the header-only text helpers that the library itself does not use.
#include "cwd_sys.h"
#include <libcwd/char2str.h>
#include <libcwd/buf2str.h>
#include <ostream>
#include <string_view>
std::ostream& w_char2str(std::ostream& os, char c) { return os << libcwd::char2str(c); }
std::ostream& w_buf2str(std::ostream& os, char const* buf, size_t size) { return os << libcwd::buf2str(buf, size); }
std::ostream& w_buf2str_view(std::ostream& os, std::string_view v) { return os << libcwd::buf2str(v); }
