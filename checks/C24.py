"""References to Python objects: released once, never too often, never used afterwards."""
from engine import pyobj

TECHNIQUE = 'typestate and ownership analysis of object references along every path of the Python interface (LLVM IR)'
LEVEL_NOTE = '''Every function reachable from the interpreter (method, sequence and type tables of the five types, module initialisation) and every helper they use, on every path, with each interpreter and NumPy call failing or succeeding independently; every special member of the owning reference class.
Loops are followed until the ghost state at their head repeats. Paths on which a C++ exception propagates are not followed.'''
EXPLANATION = '''Each object made or received carries the number of references the activation owns: a new reference adds one, releasing or handing one to a function that steals takes one away, storing it in an object that outlives the call hands it on. At each return the balance of every object is
zero, except for the object returned, of which the caller gets exactly one; a release without ownership and a use after the last reference was given up are reported where they happen. A type's destructor gives back the container, the reference it holds and its storage. Assigning, moving, copying and
dropping an owning reference release what it held exactly once, also onto itself.'''
ASSUMPTIONS = ['the C API of Python 3.12 and NumPy behaves as documented (ownership, failure and exception behaviour of each function used)']
LABELS = (pyobj.LAB_LEAK, pyobj.LAB_OVER, pyobj.LAB_GONE, pyobj.LAB_RET, pyobj.LAB_FREE)


def run(ctx):
    pyobj.analyse(ctx, lambda l: l in LABELS)
    pyobj.wrappers(ctx, lambda l: l in pyobj.REFS and l != pyobj.LAB_TEST)
