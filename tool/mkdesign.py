#!/usr/bin/env python3
"""Write DESIGN.md: the text below, the description of each check (its docstring), and the committed tables."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Deciding properties of libcwd by static analysis

(Generated by `tool/mkdesign.py` from its own text, the docstrings of `lint/checks/*.py`, `seeded/*/meta.json` and
`KNOWN_FINDINGS.txt`.)

## What is analysed

Every check starts from /repo's working tree: `lint/core.py` reads which sources the build compiles, compiles them again with
clang to LLVM IR (plus the witnesses, below), and runs `tool/cwdir.cc` (built by `setup_cmd` against LLVM 18's C API and
headers) which lowers the IR to a small JSON form with debug locations, field paths and calls resolved to mangled names. The result is
cached by the hash of all inputs, outside /repo; a changed source gives a new hash. Nothing of libcwd is executed, and no
path is handed to a solver.

The engine (`lint/flow.py`) is a forward, path-sensitive dataflow analysis over that IR:

* terms are interned symbolic values (constants, arguments, allocas, globals, field addresses `base+offset`, opaque results of
  loads/calls/phis, comparisons, bit operations); a state holds intervals and disequalities of terms, the memory that this path
  knows, and the state of the rule (`st.p`);
* states are merged per block only when equal (after pruning what is dead); loops are handled by widening the values carried around
  (each iteration starts from values that are unknown except for the facts which the rule proves inductive), *not* by unrolling,
  unless the bound is constant and the check says so;
* helpers of the library are inlined (recursion and unknown callees clobber what they could reach), exceptional edges are followed where the
  property speaks about them (`follow_unwind`);
* each check is a rule: hooks on loads, stores, calls, branches and returns. A rule speaks about resolved functions, fields and types,
  never about names of local variables, the text or the order of statements. Where a rule cannot find what it is about (an anchor was
  renamed), it stops with `Broken` (exit 2) instead of passing.

`lint/sym.py` computes summaries of a function (per path: condition, final memory, sequence of calls) on the same engine;
`lint/lin.py` has linear relations between sizes (C12); `lint/output.py`, `lint/ostate.py`, `lint/registry.py`, `lint/demangle.py` are
the vocabulary of the groups of checks.

**Witnesses** (`witness/`) are user programs that are compiled, never run: the macros only mean something once they are expanded
(C01, C13), templates only exist once they are instantiated (C19, C20, C28), and the configuration without CWDEBUG has to be shown to vanish
(C02, which is also a compile-fail witness).

**Stubs** (`stub/threadsafe`): some build options need `threadsafe`, whose sources are a submodule that is absent here; the stub declares what libcwd
uses of it, so that the sources which the build takes can be type-checked in the same way as the build does it. The locks are recognised by
type and operation.

**Soundness limits, on purpose**: data that several threads reach without a lock and without being a registry is not covered
except where C03-C05, C09, C10, C20, C35 say so; allocation failure (`bad_alloc`) is followed only by C05 and C21's description; what
the standard library does is modelled by its contract (list, set, vector, string, unique_ptr are inlined where that is cheap and otherwise
treated as opaque with the effects of their signature).

**Quick and thorough** are the same analysis: it has no depth parameter (all paths, all inputs), so there is nothing to explore deeper.

"""

BOUND = {
 "C01": "all 2^n on/off combinations for 1-3 channels; more channels repeat the same macro step",
 "C02": "every debug macro; the operand contents are irrelevant because they are not looked up",
 "C03": "functions that return normally; exceptions thrown by the user's stream are out of scope (they do leak the lock)",
 "C04": "the pair of each DebugObject; get_ostream() hands the bare stream to the user and is not judged after that",
 "C05": "four registries, all functions",
 "C06": "every path of every switch; counters are 32 bit terms, the arithmetic is exact on them",
 "C07": "any nesting depth, by the invariant that each start/finish pair restores",
 "C08": "any interleaving of continued/finish with nested output, by the same induction",
 "C09": "every flag word that channels can produce",
 "C10": "pthread/thread_local life cycle of one state; order of destructors of other thread_locals is arbitrary",
 "C11": "every subscript and every label write in the library",
 "C12": "every path and every size (linear relations)",
 "C13": "every path; which libc functions may change errno is a list (everything not known to be harmless may)",
 "C14": "all 2^32 arguments, by intervals", "C15": "all 256 bytes, all lengths, by induction",
 "C16": "all flags", "C17": "any number of lines, any line", "C18": "all paths, all guard states",
 "C19": "all 27 states of one object and all pairs for assignment", "C20": "all states of one pointer and pairs",
 "C21": "all paths with each acquisition succeeding or failing; bad_alloc inside load_elf_function_symbols is not judged",
 "C22": "any count, any flags, one concurrent open between the two critical sections; a DSO loaded at program start (without libcwd's dlopen) is outside the statement",
 "C23": "all inputs", "C24": "all inputs", "C25": "all pairs of characters", "C26": "all inputs", "C27": "all inputs",
 "C28": "the kinds of types in the witness; each is a different template specialisation",
 "C29": "all paths, all configured strings; what the kernel does with the child is not modelled",
 "C30": "all 2^n option sets, version parts 0..127", "C31": "all pairs of strings",
 "C34": "all flag words and widths", "C35": "every policy, any number of channels",
}

TAIL = """
## False alarms met, and what was changed

The checks were run on behaviour-preserving rewrites (helpers extracted, loops rewritten, conditions inverted, statements reordered,
lambdas, `switch` for `if`, arrays for tables) of nearly every function they analyse. What they wrongly objected to was repaired in the engine or
the rule, never by special-casing: memory that is known to hold `mutex_` was forgotten at joins (C03/C04); `free()` of a released buffer before or after the
unlock (C03); the order of the clean-up of a state (C10); a local array instead of `std::array` (C17); lists that are searched through
`std::find_if` (C05, C22); `std::exchange`, `std::min`, `std::clamp` (engine); a flag copied before it is tested (C01, C07).

Properties that were too strong as first written and were corrected: C22 first demanded that a DSO loaded at startup never be unregistered;
C03 first demanded the lock for the last words of a dying process (the code documents that it writes anyway after try_lock fails);
C20 first demanded that reset() clears `locked_` (the class documents that it may not).

## Observed, not judged

* `unfinished_oss_` may dangle after a flushed continued output was finished with `nonewline` and nothing was added.

* initialize-once flags (`init_thread`'s static bool, type_info's `s_initialized_`, `WST_second_time`) are plain booleans, raced by design.
* `Debug(initialize)` of a label longer than 16 characters for a fatal channel is cut; the common width is widened first.
* `while (std::cin.get() != '\\n')` (for wait_cf) does not end at end-of-file.
* `attach_gdb` reads `status` when waitpid fails with ECHILD.
* a stream that throws leaves the user's lock locked in `writeto`.
"""

def doc(p):
    return (ast.get_docstring(ast.parse(open(p).read())) or "").strip()

o = [HEAD, "## Per property\n"]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
seeds = {}
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    o.append("### %s %s\n" % (i, d["title"]))
    f = os.path.join(V, "lint/checks/%s.py" % i.lower())
    if i in na:
        o.append("Not applicable: %s.\n" % na[i])
        continue
    o.append(doc(f) + "\n")
    if i in BOUND:
        o.append("Bounds: %s.\n" % BOUND[i])
o.append("## Planted bugs\n\nEach was written from the text of the property; each is caught by the check of its property.\n")
o.append("| seed | check | what it breaks | needs |\n|---|---|---|---|")
for p in sorted(seeds):
    for n, d in seeds[p]:
        o.append("| %s | %s | %s | %s |" % (n, p, d["what_it_breaks"], d["needs"]))
o.append("\nBesides these, several hundred one-line mutations were tried during development (not kept).\n")
o.append("## Genuine defects\n\nRepaired (`fix:` commits in /repo) and known; the file KNOWN_FINDINGS.txt is what the checks read.\n")
for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
    if l.strip() and not l.startswith("#"):
        o.append("* " + l.strip())
o.append(TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
