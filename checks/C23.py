"""Failure: every step that can fail is tested, every failure is an exception."""
from engine import pyobj

TECHNIQUE = 'typestate analysis of results that can fail, pending exceptions and argument validation along every path of the Python interface (LLVM IR, virtual calls resolved through debug information)'
LEVEL_NOTE = '''Every function reachable from the interpreter (method, sequence and type tables of the five types, module initialisation) and every helper they use, on every path, with each interpreter and NumPy call failing or succeeding independently. Loops are followed until the ghost state at their
head repeats. Column indices given to matrix operations are values, not positions, and are not checked by the library. A container that runs out of memory aborts the process as it does in C++.'''
EXPLANATION = '''Results of calls that can fail are null, negative or zero with an exception pending, on a path of their own; using one where an object is needed, or asking a container that was never set, is reported. Where a member of the wrapped container is called, the positions it is given
must follow from tests on the path to be in range for the container as it is then, counts and capacities to be non-negative, and values to come from a conversion to the container's type that succeeded and is still alive, with the count converted. Argument formats must fill variables of their own size. At each return,
failure comes with an exception pending and success without one.'''
ASSUMPTIONS = ['the C API of Python 3.12 and NumPy behaves as documented (ownership, failure and exception behaviour of each function used)']
LABELS = (pyobj.LAB_TEST, pyobj.LAB_EXC, pyobj.LAB_NOEXC, pyobj.LAB_INIT, pyobj.LAB_RANGE, pyobj.LAB_VALS, pyobj.LAB_FMT, pyobj.LAB_CONV)


def run(ctx):
    pyobj.analyse(ctx, lambda l: l in LABELS)
    pyobj.wrappers(ctx, lambda l: l == pyobj.LAB_TEST)
