"""Rights: what Python may change, and what it is given."""
from engine import pyobj

TECHNIQUE = 'typestate analysis of access rights along every path of the Python interface (LLVM IR, virtual calls resolved through debug information); abstract interpretation of the classes between Python objects and containers'
LEVEL_NOTE = '''Every function reachable from the interpreter (method, sequence and type tables of the five types) on every path, for any outcome of every interpreter and NumPy call and any contents of the object. The five wrapper classes for arrays of one to three dimensions
in five layouts and one instance of the other containers, sizes, positions and levels symbolic. The access level is the one in force at the call; Python code may itself raise it with set_access_level, which the interface offers on purpose.'''
EXPLANATION = '''Each function the type tables name is followed along its paths. A call of a member of the wrapped container that changes values or sizes is reachable only where the access level in force has been compared with the level needed and found sufficient; a call that sets an
exception comes before any change on its path. Each wrapper class: nothing but reading is allowed until the level is set, the level set is the one in force, the array description handed to NumPy carries the container's own storage, type, extents and strides and the writable flag exactly when the level
allows modification (never for sorted values, sets, columns or offsets), each change is one call of the container's own operation with the arguments Python gave and its answer is handed back. The function that makes NumPy arrays passes the writable flag, extents, byte strides, type and storage on unchanged.'''
ASSUMPTIONS = ['the C API of Python 3.12 and NumPy behaves as documented (ownership, failure and exception behaviour of each function used)']
LABELS = (pyobj.LAB_LEVEL, pyobj.LAB_REFUSED)


def run(ctx):
    pyobj.analyse(ctx, lambda l: l in LABELS)
    pyobj.wrappers(ctx, lambda l: l not in pyobj.REFS)
    pyobj.arrays(ctx, lambda l: l in (pyobj.LAB_FLAG, pyobj.LAB_SHAPE))
    pyobj.types(ctx, lambda l: l == pyobj.LAB_CODE)
