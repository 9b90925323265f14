#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)


p("C01", "Debug output arguments are evaluated iff object and a selected channel are on",
  "A debug output statement evaluates the expressions streamed into it exactly once when its debug object is on for the calling thread and at least one of the channels it names is on for that thread (the always channel, and every fatal statement, count as on), and otherwise evaluates none of them and starts no output. The printed label is that of the leftmost named channel that is on, and every control flag named in the statement is in effect for that output and no other flag is.",
  ["inputs", "programs"],
  "every on/off combination of the debug object and of up to three named channels, every control-flag operand, for each output macro",
  "The runnable tests use at most one channel in one state; the truth table over object, channel and flag combinations and over all macro shapes is not sampled, and most of the test-suite cannot be built here.",
  ["include/libcwd/macro_Libcwd_macros.h", "include/libcwd/debug.h", "include/libcwd/libraries_debug.h", "include/libcwd/ChannelSet.inl.h", "include/libcwd/DebugObject.inl.h", "include/libcwd/AlwaysChannel.inl.h", "include/libcwd/Channel.inl.h"],
  [("off counter test in the scope-begin macro", "include/libcwd/macro_Libcwd_macros.h: LibcwDoutScopeBegin"), ("operator| of the channel set", "include/libcwd/ChannelSet.inl.h, DebugObject.inl.h")],
  observe=["side effects of the streamed expressions", "label and flags handed to the output state"])

p("C02", "Without CWDEBUG every debug construct vanishes",
  "In a program compiled without CWDEBUG every debug macro expands to nothing that has an effect: no operand is evaluated, nothing of the library is referenced or needs linking, and the surrounding control flow (including a debug statement as the sole body of an if with an else) is unchanged. Fatal statements, which must still stop the program, do so in that configuration too.",
  ["programs", "configurations"],
  "every macro that the non-debug header offers, in statement position, for every operand",
  "One test merely links one non-debug program; it does not check that operands are dropped for each macro.",
  ["include/libcwd/cwds_debug.h", "debug.h", "include/libcwd/libraries_debug.h"],
  [("empty macro definitions", "include/libcwd/cwds_debug.h / debug.h without CWDEBUG")])

p("C03", "Final output stream is written only under its lock, which is always released",
  "While a lock is associated with the debug output stream, every byte that a debug object sends to the stream is sent while the calling thread holds exactly that lock, acquired once for the whole message (a thread about to end the program, after repeatedly failing to get the lock, may write a bare line end); the record of which thread left a line unfinished is only touched while that lock is held. Whenever the call returns the lock has been released exactly once. A lock that was not obtained is never released and output is not reported as locked when it is not.",
  ["schedules", "histories"],
  "every path through the output, flush, wait and continued-error code, every combination of lock/no lock, target stream override, unfinished and continued state",
  "Needs contention and every combination of internal output state; the repository has no concurrent test that can run here.",
  ["src/debug.cxx", "include/libcwd/DebugObject.inl.h", "include/libcwd/private/LockInterface.h", "include/libcwd/set_ostream.inl.h"],
  [("acquire stream and lock as a pair", "OstreamState::get_locked_os / try_lock_os"), ("release", "Buffer::writeto, DebugObject_ThreadSpecificData::start/finish")])

p("C04", "Stream and its lock are replaced and read only as one protected pair",
  "The output stream pointer of a debug object and the lock that belongs to it are read and written only inside one internal critical section, so that no thread can ever combine a stream with another stream's lock; replacing either waits, still inside that section, until a writer that selected the old pair has left. Setting a stream together with a lock installs exactly the pair that was passed, setting only a stream leaves the lock as it is, and a replaced lock is destroyed exactly once, after that wait and outside the internal section. The internal section is always taken before, never after, the user's lock.",
  ["schedules"],
  "all interleavings of set_ostream, get_ostream, has_mutex and output in any number of threads",
  "A race window of a few instructions; no concurrent test exists that can be run here.",
  ["include/libcwd/DebugObject.h", "include/libcwd/DebugObject.inl.h", "include/libcwd/set_ostream.inl.h"],
  [("state mutex", "OstreamState (all members)")])

p("C05", "Registries are touched only under their lock, in the right mode",
  "The lists of debug channels, debug objects, loaded object files and dynamically opened libraries are read only while holding at least a read lock and modified only while holding a write lock on that same list, each lookup-and-insert being one critical section (or the insertion itself deciding whether the element was new), and every lock is released on every way out; the common label width changes only under the write lock on the channels, and an object file's symbols are loaded only under its write lock after finding there that they were not. No list is locked again by a thread that already holds it, and no lock on a list is held while debug information is being searched for on disk or over the network.",
  ["schedules", "histories"],
  "every path of every function that touches a registry, all thread interleavings of registration, iteration, lookup and dlopen/dlclose",
  "Lock omissions only show under races; registration happens before main in all tests.",
  ["src/debug.cxx", "src/dwarf.cxx"],
  [("rat/wat access objects", "DebugChannels, DebugObjects, ObjectFileRegistry, ObjectFile, dlopen/dlclose"), ("s_object_files_is_locked_", "ScopedTracker")])

p("C06", "On/off switches count, balance and restore exactly",
  "For every debug object and channel, each off() raises and each on() lowers that one switch's per-thread counter by exactly one (a channel's on() beyond fully-on ends in a core dump instead), the switch being on only when its counter is negative; and restore() after force_on() gives back exactly the counter value saved, having verified that calls in between were balanced. No switch of any other object, channel or thread changes.",
  ["histories", "inputs"],
  "every counter value and every nesting of off/on/force_on/restore",
  "Tests toggle a switch once or twice from its initial state; nesting depths and unbalanced uses are not covered and these tests do not build here.",
  ["src/debug.cxx", "include/libcwd/DebugObject.inl.h", "include/libcwd/Channel.inl.h"],
  [("off counters", "DebugObject::on/off/force_on/restore, Channel::on/off/force_on/restore")])

p("C07", "Nested debug output restores the interrupted output",
  "Starting output while other output of the same thread is in progress saves the interrupted state and indents the new line by four more columns, and finishing it restores precisely the interrupted state, indentation and stream; state is saved and restored in matching pairs for any nesting depth. While a line is being started or finished, further output of that debug object by the library is suppressed, and that suppression is always lifted again before returning.",
  ["histories", "inputs"],
  "every nesting of start/finish and every flag combination on each path through both",
  "Tests only check formatted text of shallow nestings; leaks of state need unusual flag combinations.",
  ["src/debug.cxx"],
  [("output_state_stack push/pop, indent +-4, off counter ++/--", "DebugObject_ThreadSpecificData::start/finish")])

p("C08", "Continued output is matched with its own start",
  "A continued or finish statement adds to the innermost unfinished continued output if and only if that output's channel was on, and is suppressed otherwise, for every nesting of switched-on and switched-off continued outputs; each finish undoes exactly one continued_cf. A finish without a matching start ends in a fatal error and never in a silent corruption.",
  ["histories"],
  "every nesting of continued_cf statements, with any of them on or off, followed by continued/finish statements",
  "Needs long histories of nested on/off statements; the tests sample a few fixed sequences and do not build here.",
  ["src/debug.cxx", "include/private_DebugStack.inl.h"],
  [("off_count and continued_stack", "ChannelSet::operator|(continued_cf_nt), ChannelSetBootstrap::operator|(ContinuedChannel)"), ("pop check", "DebugStack::pop")])

p("C09", "Fatal output always terminates the process, once, after writing the message",
  "A fatal or core-dump statement never returns to its caller: the message is written (and flushed, unless already failing recursively) first, and then exactly one thread terminates the process - by abort for the core channel and by exit status 180 without running global destructors for the fatal channel - while any other thread that gets there waits forever.",
  ["schedules", "inputs"],
  "every path from a fatal statement, any number of threads failing simultaneously",
  "A test can run one fatal path in one thread; never-returning and single ownership are over all paths and schedules.",
  ["src/debug.cxx", "include/libcwd/core_dump.h", "include/libcwd/macro_Libcwd_macros.h"],
  [("ownership claim", "claim_fatal_termination_ownership"), ("terminate", "DebugObject_ThreadSpecificData::finish/fatal_finish, core_dump")])

p("C10", "Per-thread state lives exactly as long as its thread needs it",
  "Each thread gets its own debug state on first use, even when creating it re-enters the library; a worker thread's state is released exactly once when the thread ends, whatever re-enters during that release sees the same state and never a freed one, and the main thread's state is never released. Releasing turns the debug objects off for that thread before their data is freed.",
  ["schedules", "histories"],
  "every order of first use, re-entry and thread exit",
  "Double free and use after free at thread exit need particular orders and are invisible without instrumentation.",
  ["src/threading.cxx", "src/debug.cxx"],
  [("thread-local pointer and guard", "ThreadSpecificData::instance, S_create, cleanup_routine, TSD_cleanup_guard")])

p("C11", "Too many channels, objects or nested statements fail loudly, never corrupt",
  "Every fixed capacity of the library - number of channels, number of debug objects, channel label length, nesting depth of output and of continued output - is checked before it is used, and exceeding it (or underflowing a stack, including popping a margin or marker that was never pushed) ends in a fatal error; no memory outside the fixed arrays is ever accessed.",
  ["programs", "histories"],
  "every number of channels and objects a program may create, every label length, every nesting depth",
  "Tests create a handful of channels and nest two or three levels.",
  ["src/debug.cxx", "include/private_DebugStack.inl.h", "include/libcwd/config.h.in", "include/libcwd/max_label_len.h"],
  [("capacity checks", "DebugChannels::initialize_channel, DebugObject::NS_init, DebugStack::push/pop, DebugObject::pop_margin/pop_marker")])

p("C12", "Margin, marker and color strings never overrun and survive push/pop",
  "For every sequence of assign, append, prepend, reserve, push and pop with strings of any length, a margin, marker or color string is stored in a block that is at least as large as its length plus the terminating zero, every write stays in that block, and each block is freed exactly once, when no string uses it any more (what is still pushed when a thread ends is not released). Popping restores the string that was current at the matching push.",
  ["inputs", "histories"],
  "all lengths and all operation sequences",
  "Overruns at particular length/capacity combinations and leaks or double frees are not observable in the existing text-comparing tests.",
  ["src/debug.cxx", "include/libcwd/DebugString.h", "include/libcwd/DebugString.inl.h"],
  [("capacity discipline", "DebugString::internal_assign/internal_append/internal_prepend/reserve/NS_internal_init"), ("ownership hand-over", "DebugObject::push_margin/pop_margin/push_marker/pop_marker")])

p("C13", "The errno shown is the caller's, and looking things up does not change it",
  "The error printed for error_cf is the value errno had when the debug statement was entered, captured before the library makes any call that can change it, including for continued output; and opening or searching the DWARF and ELF debug information of an object file leaves errno as it was on every return path.",
  ["inputs", "fault_sequences"],
  "every path from statement entry to capture, every failure of the calls made while locating debug information",
  "Requires library calls on the way to fail; tests do not inject such failures.",
  ["src/debug.cxx", "src/dwarf.cxx"],
  [("capture", "DebugObject_ThreadSpecificData::start"), ("restore", "ScopedPreserveErrno")])

p("C14", "Error numbers are named exactly as the system names them",
  "For every error number that the platform's C library defines, the library returns precisely the symbolic name the system headers give it (either of two names that share a number is accepted), and for every other integer, negative ones included, it returns a distinct 'unknown' text and reads no memory outside its table.",
  ["inputs"],
  "all 2^32 int values",
  "No runnable test calls it; sampling cannot cover table shifts at both ends and negative values.",
  ["src/strerrno.cxx"],
  [("table and bounds test", "strerrno")])

p("C15", "Escaped characters are unambiguous for every byte, and buffers are fully printed",
  "Every one of the 256 byte values is printed either verbatim (exactly the printable ASCII characters other than the backslash) or as the C escape (a b t n v f r e, backslash) that denotes it or else as \\x and its two uppercase hexadecimal digits; a buffer is printed byte by byte, each byte exactly once, in order, for exactly the given length, whatever it contains.",
  ["inputs"],
  "all 256 byte values, all buffer lengths",
  "No runnable test covers it.",
  ["src/utils/char2str.cxx", "include/libcwd/char2str.h", "include/libcwd/buf2str.h"],
  [("escape table and ranges", "char2str::print_escaped_char_to, operator<<"), ("length loop", "operator<< of buf2str")])

p("C16", "Control flags and special channel bits never collide",
  "Every control flag, every internal marker bit of a continued or fatal channel and every location format flag occupies its own bit in its mask, so that combining any set of them selects precisely that set; each conditional helper yields exactly its flag when the condition is true and nothing otherwise.",
  ["inputs"],
  "all combinations of flags, both truth values of every helper",
  "Tests use a few flags one at a time.",
  ["include/libcwd/control_flag.h", "include/libcwd/private/ThreadSpecificData.h"],
  [("constants and helpers", "include/libcwd/control_flag.h")])

p("C17", "The rcfile switches exactly the channels it names and leaves the rest balanced",
  "Reading a configuration file turns on, off or toggles exactly the channels whose label matches the listed masks, once per listed mask, leaving each switched channel precisely on or off (never off more than once) and its own message channel as it was before; the interpretation of every documented keyword is independent of the others. Masks are separated by commas and white space and compared without regard to case; a keyword ends at white space or the equal sign, its value is the rest without white space around it; empty lines and lines that start with a # are ignored. A malformed line, a configuration file that exists but cannot be read, or channels_toggle before channels_default ends in a fatal error, and an unknown keyword only in a warning.",
  ["inputs", "histories"],
  "all files: any order of keywords and values, with and without override file",
  "No test of rcfile reading can be built here; the interaction of keywords over two files is combinatorial.",
  ["src/utils/rcfile.cxx"],
  [("keyword dispatch and balance", "RcFile::read, process_channel, set_all_channels_on/off")])

p("C18", "Initialization happens once, in order, and before anything is used",
  "Whatever global object or function touches the library first, global initialization runs exactly once, fatal channels become usable before anything that could fail, every debug object and channel is registered once however often its initializer is called, and output stays off until initialization of that object is complete; re-entrant initialization is reported to its caller and never runs twice. Only the warning channel is on by default.",
  ["schedules", "histories"],
  "every order of static initialization and every re-entry",
  "Static initialization order differs per program; tests see one order.",
  ["src/debug.cxx", "src/init_functions.cxx", "src/dwarf.cxx"],
  [("once guards", "ST_initialize_globals, DebugObject::NS_init, Channel::NS_initialize, FatalChannel::NS_initialize, ensure_initialization")])

p("C19", "A source location never exposes stale, freed or half-filled data",
  "After every operation on a source-location object (construction, lookup, copy, assignment - also to itself -, clear) it is either known, with a file name pointing into the path it holds and a line that belongs to it, or not known, with a function name (or the reason) set; file name, path and line are only handed out or printed when known. Copies share the path as documented, and its memory is released exactly once, by the location that owns it.",
  ["histories", "inputs"],
  "every sequence of operations and every lookup outcome",
  "Location tests need debug information and do not build here; aliasing and early-failure combinations are not sampled.",
  ["src/location.cxx", "include/libcwd/Location.h", "include/libcwd/Location.inl.h"],
  [("known_ flag discipline", "Location::pc_location, clear, operator=, copy constructor")])

p("C20", "Lockable auto pointers have at most one owner and delete once",
  "For every sequence of constructions, copies, assignments (also to itself), locks, unlocks, resets and releases of lockable pointers, an object is owned by at most one of them; copying or assigning from an unlocked owner moves ownership and from a locked owner leaves it; the owner, and nobody else, deletes the object exactly once, using the array form exactly for arrays.",
  ["histories"],
  "all operation sequences and all owner/locked states of both operands",
  "The test exercises one fixed sequence; the state table (owner x locked x self) is not covered.",
  ["include/libcwd/lockable_auto_ptr.h"],
  [("owner_ and locked_ transitions", "lockable_auto_ptr")])

p("C21", "Debug-info lookups release every handle, descriptor and allocation on every path",
  "Every file descriptor, ELF and DWARF handle, libdwfl session and scope array obtained while locating a symbol or source line is released exactly once on every path, including each failure, and never used after release; a failed attempt to open debug information is remembered as failed. Forced loading output and scoped lock markers are undone on every exit.",
  ["fault_sequences", "inputs"],
  "every combination of success and failure of the libdw, libelf and system calls",
  "Failure of these calls cannot be provoked by the tests that run.",
  ["src/dwarf.cxx"],
  [("acquire/release pairs", "load_elf_function_symbols, open_dwarf/close_dwarf, get_debug_info_path, lookup_innermost_inline_scope, ForceLoadingDebugOutput")])

p("C22", "dlopen and dlclose bookkeeping follows the loader's",
  "Each successful dlopen of a handle, whatever its flags, is counted once and each successful dlclose uncounted once; an object file stays known to the location lookup as long as the count says it is open (or it was opened never to be deleted) and is forgotten and freed exactly once after the last close. Wrappers always call the real function first and return its result unchanged.",
  ["histories", "schedules"],
  "all sequences of dlopen with any flags and dlclose over any handles",
  "The dlopen test needs debug information and does not build here; flag/sequence combinations are not covered.",
  ["src/dwarf.cxx"],
  [("reference counts", "dlopen/dlclose and the dlopen map")])

p("C23", "The demangler never reads outside its input",
  "For every zero-terminated string, valid or not, demangling reads no byte of its input beyond the terminating zero and none before its start.",
  ["inputs"],
  "all zero-terminated byte strings",
  "The demangler test feeds a fixed list of valid names; truncated and hostile names are unbounded.",
  ["include/cwd_demangle.h", "src/demangle.cxx"],
  [("cursor primitives guarded on the terminating zero", "session::next/eat_current/next_peek and all decode functions")])

p("C24", "The demangler always terminates with bounded nesting on replay",
  "For every input string the demangler terminates: each loop and each recursive step either consumes input or is cut off by a depth limit on replayed substitutions and template arguments; a self-referring template argument or substitution is reported as not demanglable.",
  ["inputs"],
  "all input strings, including self-referring ones",
  "Tests hold only well-formed names that terminate trivially.",
  ["include/cwd_demangle.h"],
  [("consumption and replay depth counters", "session::decode_substitution, decode_template_param, loops over the input")])

p("C25", "Demangler names match the C++ ABI for every operator and type code",
  "Every operator code and every builtin type code of the Itanium C++ ABI that the demangler accepts is rendered with exactly the operator or type the ABI assigns to it and (for operators with a fixed number of operands, in expressions) its arity, no two codes are confused, and no unassigned code is accepted; every special name prefix, every standard-library abbreviation and every qualifier has its ABI meaning.",
  ["inputs"],
  "all two-letter operator codes, all builtin type letters, all abbreviation and qualifier letters",
  "The test's list of names uses a fraction of the codes.",
  ["include/cwd_demangle.h"],
  [("code tables", "builtin_type_c, offset_table_c, symbol_name_table_c, switches over code letters")])

p("C26", "A name that cannot be demangled is returned unchanged",
  "Whenever the demangler cannot decode the whole of its input, the public demangle functions produce exactly the input string and nothing else; a failure detected anywhere inside is never lost, and success is only reported when the input was consumed up to its end.",
  ["inputs"],
  "all inputs that fail at any point of decoding",
  "Tests contain valid names and very few invalid ones.",
  ["src/demangle.cxx", "include/cwd_demangle.h"],
  [("error propagation", "every decode function's failure result; demangle_symbol/demangle_type")])

p("C27", "The demangler's number and literal buffers are never overrun",
  "Whatever digits a mangled name contains, the demangler writes only within its fixed buffers, indexes only within its fixed tables and never skips ahead by a length that the input does not contain.",
  ["inputs"],
  "all digit strings, in every position where the grammar takes a number or a real literal",
  "Tests contain small numbers and one or two literals.",
  ["include/cwd_demangle.h"],
  [("bounds tests", "decode_real, decode_number, decode_source_name, table lookups")])

p("C28", "Type information objects describe the exact type asked for",
  "Type information obtained for a type carries the size of that type, for pointers the size of the pointed-to type (zero when that is incomplete or the type is not a pointer), and the encoded and demangled name of that very type; it is filled in before it is first handed out, and the 'unknown' object is distinguishable. Asking by type keeps top-level qualifiers and references in the name.",
  ["programs"],
  "all types a program may ask for: pointers, references, qualified, incomplete, void pointers",
  "The test asks for a few types.",
  ["include/libcwd/type_info.h", "src/type_info.cxx"],
  [("init arguments per specialization", "type_info<T>::value, libcwd_type_info_exact<T>::value, TypeInfo::init")])

p("C29", "Attaching a debugger never runs a truncated command or leaks a second process",
  "Attaching a debugger executes the configured commands only when they fit completely in the command buffers and are non-empty, otherwise it stops with a fatal error; the forked child always exits without returning into the program and debug output is switched off in between and back on exactly once in the parent on every path.",
  ["inputs", "fault_sequences"],
  "all lengths of configured commands, every outcome of fork",
  "Not tested at all (it forks a terminal).",
  ["src/utils/attach_gdb.cxx"],
  [("length checks, fork switch", "attach_gdb")])

p("C30", "A program built against a different configuration is refused",
  "The configuration signature that a program compares at startup differs for any two configurations that differ in a build option that changes the library's data layout or interface or in any part of the version number, all its fields are disjoint, and the startup check compares header and library signature before anything else and fails fatally on a mismatch.",
  ["configurations"],
  "all combinations of build options and version numbers",
  "Tests run in one configuration.",
  ["include/libcwd/config.h.in", "src/debug.cxx"],
  [("signature", "config_signature_header_c, main_reached")])

p("C31", "Wildcard matching of channel masks terminates and stays within its strings",
  "Matching a channel label against a mask reads only the mask's characters (and the byte after its last one) and the label up to its terminating zero, always terminates, and a mask without an asterisk matches exactly the equal label.",
  ["inputs"],
  "all masks and labels",
  "Not tested directly; called only while reading configuration files, whose tests do not build here.",
  ["src/utils/match.cxx"],
  [("pointer advance guards", "match")])

p("C32", "Symbol ranges stay disjoint and DWARF names win",
  "After any sequence of symbol insertions the address ranges known for an object file are pairwise disjoint and non-empty, each is stored under its own end, and every address covered by an inserted function stays covered by the preferred one: a symbol with DWARF data beats one without, otherwise the symbol with the smaller original size wins, and at a tie the one that was already known; what is left of a loser keeps its symbol, and the insertion says whether any part of the new symbol was stored. Ranges read from a file are shifted by its load base, and empty or wrapping ones are refused. A lookup of an address, of a symbol or of a loaded segment, returns the unique range that contains it, or nothing.",
  ["inputs", "histories"],
  "all sequences of ranges",
  "Needs adversarial overlapping ranges; the one unit test for it does not build here and samples a few shapes.",
  ["include/dwarf_symbol_ranges.h", "src/dwarf.cxx"],
  [("range splitting", "insert_function_symbol_range"), ("lookup", "get_symbol_range_from_function_symbols_map")])

p("C33", "Demangled output of valid names is the declaration the ABI says",
  "For every valid mangled name the demangler's output is the C++ declaration that the name encodes, with qualifiers, template arguments, function pointers and substitutions placed and spelled as in source code.",
  ["inputs"],
  "all valid mangled names",
  "The language of mangled names is infinite; the test has a fixed list.",
  ["include/cwd_demangle.h", "src/demangle.cxx"],
  [("decoder", "session::decode_*")])

p("C34", "Debug output text is laid out as documented for every flag combination",
  "Each line of debug output consists of color, margin, label, marker, indentation, text and line end in that order, each part present, blanked or absent exactly as the control flags in effect say. A line that is interrupted, by the same or by another thread, is ended there with <unfinished> (or <no newline> when it would not have been continued), and when it is continued it starts again with its own prefix and <continued>, once.",
  ["inputs"],
  "all combinations of control flags",
  "Tests compare a few fixed lines.",
  ["src/debug.cxx"],
  [("prefix assembly", "DebugObject_ThreadSpecificData::start/finish")],
  observe=["sequence of pieces written into the line buffer"])

p("C35", "New threads get their debug settings without disturbing others",
  "Initializing a thread's debug output turns on exactly the channels that the chosen policy names (configuration file, copy of main thread, or none), for that thread only, and installs a lock for the output stream when none is present before any line of that thread can be written concurrently. What the configuration file left on is saved once per channel and looked up unchanged, off for an unknown label; setting up the main program leaves debug output switched off as often as on before its own thread is set up. The margin of a named thread is its name cut or padded to sixteen characters, whatever its length; an unnamed one gets its number, unless it is the first thread that was set up.",
  ["schedules", "inputs"],
  "all policies, all thread start orders",
  "No test exists that can be built here.",
  ["src/init_functions.cxx"],
  [("policy", "init_thread"), ("lock installation", "init_thread: has_mutex/set_ostream")])

p("C36", "Every symbol of a file reaches the table, at its run-time place",
  "Loading the symbols of an object file walks over every compilation unit of its DWARF data, every function in it and every address range of that function, and over every entry of every symbol table of an ELF file, each exactly once and to the end, whatever the file holds; each range of a named function is handed on with that function's name, DIE and bounds, each defined, named, non-empty function symbol with its value and value plus size, both for the load base of this object file, and nothing else is; a stored name stays valid after the ELF file is closed. Asking libdw about a run-time address always uses the address minus the load base.",
  ["inputs", "histories"],
  "all object files",
  "Tests see one or two executables of one compiler; files with several compilation units without functions, with split functions, several symbol tables, unreadable entries or strange symbols never occur.",
  ["src/dwarf.cxx"],
  [("DWARF walk", "load_function_symbols, cb_load_function_symbol, add_function_symbol"), ("ELF walk", "load_elf_function_symbols, add_elf_function_symbol"), ("address conversion", "SymbolRange::lookup_location, lookup_innermost_inline_scope")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
