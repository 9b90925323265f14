"""Lockset rule over every path of every function that reaches the stream/lock pair of a debug object (all of
OstreamState inlined): every load and store of either member happens while that object's own internal mutex is held;
values read in one section are not combined with those of another; a function that changes the stream looks at the
installed lock in that section and, unless it is absent, locks and unlocks exactly that lock before leaving the section;
the lock is replaced only together with the stream; the user's lock is taken inside the section, and the section is
never entered, directly or through any call, while the user's lock is held; no path leaves a function inside it. set_ostream() stores exactly the
stream and a new lock object around exactly the mutex that it was given (or, given none, leaves the lock alone), and
destroys the lock object that it replaced once, after having passed through it and after leaving the section."""
from ostate import *

FLOORS = {"accesses to the pair": 10, "internal sections": 8, "replacements": 2, "pairs as asked": 3, "replaced locks destroyed": 1}


def run(ctx):
    rp, prog, roots = check(ctx, "C04")
