// The values of all flags and the result of every conditional helper.
#include "cwd_sys.h"
#include <libcwd/debug.h>
#include <libcwd/control_flag.h>
namespace libcwd {
#define ALL(X) X(nonewline_cf) X(noprefix_cf) X(nolabel_cf) X(blank_margin_cf) X(blank_label_cf) X(blank_marker_cf) \
  X(cerr_cf) X(flush_cf) X(wait_cf) X(error_cf)
#define BITS(X) X(continued_cf_maskbit) X(continued_expected_maskbit) X(fatal_maskbit) X(coredump_maskbit) \
  X(continued_maskbit) X(finish_maskbit)
#define LOC(X) X(show_path) X(show_objectfile) X(show_function)
#define V(n) (unsigned long)n,
#define S(n) #n,
extern unsigned long const w_control_flags[];
extern char const* const w_control_names[];
extern unsigned long const w_location_flags[];
extern char const* const w_location_names[];
__attribute__((used)) unsigned long const w_control_flags[] = { ALL(V) BITS(V) };
__attribute__((used)) char const* const w_control_names[] = { ALL(S) BITS(S) };
__attribute__((used)) unsigned long const w_location_flags[] = { LOC(V) };
__attribute__((used)) char const* const w_location_names[] = { LOC(S) };

// w_cond_<flag>
unsigned long w_cond_nonewline_cf(bool c) { return cond_nonewline_cf(c); }
unsigned long w_cond_noprefix_cf(bool c) { return cond_noprefix_cf(c); }
unsigned long w_cond_nolabel_cf(bool c) { return cond_nolabel_cf(c); }
unsigned long w_cond_blank_margin_cf(bool c) { return conf_blank_margin_cf(c); }
unsigned long w_cond_blank_label_cf(bool c) { return conf_blank_label_cf(c); }
unsigned long w_cond_blank_marker_cf(bool c) { return conf_blank_marker_cf(c); }
unsigned long w_cond_cerr_cf(bool c) { return conf_cerr_cf(c); }
unsigned long w_cond_flush_cf(bool c) { return conf_flush_cf(c); }
unsigned long w_cond_wait_cf(bool c) { return conf_wait_cf(c); }
unsigned long w_cond_error_cf(bool c) { return cond_error_cf(c); }
}
