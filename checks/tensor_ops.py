"""Specification table of the fixed-size tensor operations, shared by the checks of formulas and of extents.

Each entry: name, size variables, template arguments, operands, whether a scalar follows, defining expression.
Operands are (role, extents): role d = written only, r = read and written, s = read only; extents are expressions in
the size variables.  S(n) is the number of stored entries of an n x n symmetric matrix."""
from collections import namedtuple
from engine.terms import *

Op = namedtuple('Op', 'name sizes targs operands scalar f ret kind')
OPS = []
VOIGT = {2: {(0, 0): 0, (1, 1): 1, (0, 1): 2}, 3: {(0, 0): 0, (1, 1): 1, (2, 2): 2, (1, 2): 3, (0, 2): 4, (0, 1): 5}}


def voigt(n, i, j):
    return VOIGT[n][(min(i, j), max(i, j))]


def ev(e, sz):
    return eval(e, {'S': lambda n: n * (n + 1) // 2}, dict(sz))


def op(name, sizes, operands, f=None, scalar=False, ret=None, kind='generic', targs=None):
    OPS.append(Op(name, sizes, targs or sizes, operands, scalar, f, ret, kind))


def R(n):
    return range(n)


def tot(it):
    t = Poly.const(0)
    for x in it:
        t = t + x
    return t


V, M = ('I',), ('I', 'J')
# f(sz, get, c) -> {operand: {index: value}}; get(operand, index...) is the value before the call, c the scalar
op('fill', 'I', [('d', V)], lambda z, g, c: {0: {(i,): c for i in R(z['I'])}}, True)
op('fill', 'IJ', [('d', M)], lambda z, g, c: {0: {(i, j): c for i in R(z['I']) for j in R(z['J'])}}, True)
op('copy', 'I', [('d', V), ('s', V)], lambda z, g, c: {0: {(i,): g(1, i) for i in R(z['I'])}})
op('copy', 'IJ', [('d', M), ('s', M)], lambda z, g, c: {0: {(i, j): g(1, i, j) for i in R(z['I']) for j in R(z['J'])}})
op('scale', 'I', [('r', V)], lambda z, g, c: {0: {(i,): c * g(0, i) for i in R(z['I'])}}, True)
op('scale', 'IJ', [('r', M)], lambda z, g, c: {0: {(i, j): c * g(0, i, j) for i in R(z['I']) for j in R(z['J'])}}, True)
op('scaledCopy', 'I', [('d', V), ('s', V)], lambda z, g, c: {0: {(i,): c * g(1, i) for i in R(z['I'])}}, True)
op('scaledCopy', 'IJ', [('d', M), ('s', M)], lambda z, g, c: {0: {(i, j): c * g(1, i, j) for i in R(z['I']) for j in R(z['J'])}}, True)
op('addScalar', 'I', [('r', V)], lambda z, g, c: {0: {(i,): g(0, i) + c for i in R(z['I'])}}, True)
op('add', 'I', [('r', V), ('s', V)], lambda z, g, c: {0: {(i,): g(0, i) + g(1, i) for i in R(z['I'])}})
op('add', 'IJ', [('r', M), ('s', M)], lambda z, g, c: {0: {(i, j): g(0, i, j) + g(1, i, j) for i in R(z['I']) for j in R(z['J'])}})
op('subtract', 'I', [('r', V), ('s', V)], lambda z, g, c: {0: {(i,): g(0, i) - g(1, i) for i in R(z['I'])}})
op('scaledAdd', 'I', [('r', V), ('s', V)], lambda z, g, c: {0: {(i,): g(0, i) + c * g(1, i) for i in R(z['I'])}}, True)
op('scaledAdd', 'IJ', [('r', M), ('s', M)], lambda z, g, c: {0: {(i, j): g(0, i, j) + c * g(1, i, j) for i in R(z['I']) for j in R(z['J'])}}, True)
op('hadamardProduct', 'I', [('d', V), ('s', V), ('s', V)], lambda z, g, c: {0: {(i,): g(1, i) * g(2, i) for i in R(z['I'])}})
op('maxAbsoluteEntry', 'I', [('s', V)], ret='maxabs')
op('l2NormSquared', 'I', [('s', V)], ret=lambda z, g, c: tot(g(0, i) * g(0, i) for i in R(z['I'])))


def norm(z, g, o=0):
    return Poly.of(atom('f', 'sqrt', tot(g(o, i) * g(o, i) for i in R(z['I']))))


op('l2Norm', 'I', [('s', V)], ret=lambda z, g, c: norm(z, g))
op('normalize', 'I', [('r', V)], lambda z, g, c: {0: {(i,): g(0, i) * inverse(norm(z, g)) for i in R(z['I'])}}, ret=lambda z, g, c: norm(z, g))
op('AiBi', 'I', [('s', V), ('s', V)], ret=lambda z, g, c: tot(g(0, i) * g(1, i) for i in R(z['I'])))
op('crossProduct', '', [('d', ('3',)), ('s', ('3',)), ('s', ('3',))], lambda z, g, c: {0: {(i,): g(1, (i + 1) % 3) * g(2, (i + 2) % 3) - g(1, (i + 2) % 3) * g(2, (i + 1) % 3) for i in R(3)}})
IJ = lambda z: [(i, j) for i in R(z['I']) for j in R(z['J'])]
op('Rij_eq_AiBj', 'IJ', [('d', M), ('s', ('I',)), ('s', ('J',))], lambda z, g, c: {0: {(i, j): g(1, i) * g(2, j) for i, j in IJ(z)}})
op('Rij_add_AiBj', 'IJ', [('r', M), ('s', ('I',)), ('s', ('J',))], lambda z, g, c: {0: {(i, j): g(0, i, j) + g(1, i) * g(2, j) for i, j in IJ(z)}})
op('Ri_eq_AijBj', 'IJ', [('d', V), ('s', M), ('s', ('J',))], lambda z, g, c: {0: {(i,): tot(g(1, i, j) * g(2, j) for j in R(z['J'])) for i in R(z['I'])}})
op('Ri_add_AijBj', 'IJ', [('r', V), ('s', M), ('s', ('J',))], lambda z, g, c: {0: {(i,): g(0, i) + tot(g(1, i, j) * g(2, j) for j in R(z['J'])) for i in R(z['I'])}})
op('Ri_eq_AjiBj', 'IJ', [('d', V), ('s', ('J', 'I')), ('s', ('J',))], lambda z, g, c: {0: {(i,): tot(g(1, j, i) * g(2, j) for j in R(z['J'])) for i in R(z['I'])}})
op('Ri_add_AjiBj', 'IJ', [('r', V), ('s', ('J', 'I')), ('s', ('J',))], lambda z, g, c: {0: {(i,): g(0, i) + tot(g(1, j, i) * g(2, j) for j in R(z['J'])) for i in R(z['I'])}})
op('transpose', 'IJ', [('d', M), ('s', ('J', 'I'))], lambda z, g, c: {0: {(i, j): g(1, j, i) for i, j in IJ(z)}})
K = lambda z: R(z['K'])
for acc in ('eq', 'add'):
    base = (lambda g, i, j: Poly.const(0)) if acc == 'eq' else (lambda g, i, j: g(0, i, j))
    role = 'd' if acc == 'eq' else 'r'
    op('Rij_%s_AikBkj' % acc, 'IJK', [(role, M), ('s', ('I', 'K')), ('s', ('K', 'J'))], lambda z, g, c, base=base: {0: {(i, j): base(g, i, j) + tot(g(1, i, k) * g(2, k, j) for k in K(z)) for i, j in IJ(z)}})
    op('Rij_%s_AikBjk' % acc, 'IJK', [(role, M), ('s', ('I', 'K')), ('s', ('J', 'K'))], lambda z, g, c, base=base: {0: {(i, j): base(g, i, j) + tot(g(1, i, k) * g(2, j, k) for k in K(z)) for i, j in IJ(z)}})
    op('Rij_%s_AkiBkj' % acc, 'IJK', [(role, M), ('s', ('K', 'I')), ('s', ('K', 'J'))], lambda z, g, c, base=base: {0: {(i, j): base(g, i, j) + tot(g(1, k, i) * g(2, k, j) for k in K(z)) for i, j in IJ(z)}})
II = lambda z: [(i, j) for i in R(z['I']) for j in R(z['I'])]
op('Rij_add_AikAjk', 'IJ', [('r', ('I', 'I')), ('s', ('I', 'J'))], lambda z, g, c: {0: {(i, j): g(0, i, j) + tot(g(1, i, k) * g(1, j, k) for k in R(z['J'])) for i, j in II(z)}})
op('Rij_eq_AkiAkj', 'IJ', [('d', ('I', 'I')), ('s', ('J', 'I'))], lambda z, g, c: {0: {(i, j): tot(g(1, k, i) * g(1, k, j) for k in R(z['J'])) for i, j in II(z)}})
Q = ('I', 'I')
op('transpose', 'I', [('r', Q)], lambda z, g, c: {0: {(i, j): g(0, j, i) for i, j in II(z)}})
op('addIdentity', 'I', [('r', Q)], lambda z, g, c: {0: {(i, j): g(0, i, j) + (c if i == j else 0) for i, j in II(z)}}, True)
op('trace', 'I', [('s', Q)], ret=lambda z, g, c: tot(g(0, i, i) for i in R(z['I'])))
SY = ('S(I)',)
op('symAddIdentity', 'I', [('r', SY)], lambda z, g, c: {0: {(i,): g(0, i) + (c if i < z['I'] else 0) for i in R(z['I'] * (z['I'] + 1) // 2)}}, True)
op('symTrace', 'I', [('s', SY)], ret=lambda z, g, c: tot(g(0, i) for i in R(z['I'])))


# fixed sizes 2 and 3
def det(n, e):
    if n == 2:
        return e(0, 0) * e(1, 1) - e(0, 1) * e(1, 0)
    return tot(e(0, a) * (e(1, b) * e(2, c) - e(1, c) * e(2, b)) for a, b, c in ((0, 1, 2), (1, 2, 0), (2, 0, 1)))


def adj(n, e, i, j):
    """entry of the adjugate: cofactor of (j, i)"""
    r = [k for k in R(n) if k != j]
    q = [k for k in R(n) if k != i]
    m = e(r[0], q[0]) if n == 2 else e(r[0], q[0]) * e(r[1], q[1]) - e(r[0], q[1]) * e(r[1], q[0])
    return m if (i + j) % 2 == 0 else -m


def inv_entry(n, e, i, j):
    return adj(n, e, i, j) * inverse(det(n, e))


def sy(g, o, n):
    return lambda i, j: g(o, voigt(n, i, j))


def symout(n, f):
    return {(k,): f(i, j) for (i, j), k in VOIGT[n].items()}


def mat(g, o):
    return lambda i, j: g(o, i, j)


SQ = 'square'
op('determinant', 'I', [('s', Q)], ret=lambda z, g, c: det(z['I'], mat(g, 0)), kind=SQ)
op('invert', 'I', [('d', Q), ('s', Q)], lambda z, g, c: {0: {(i, j): inv_entry(z['I'], mat(g, 1), i, j) for i, j in II(z)}}, ret=lambda z, g, c: det(z['I'], mat(g, 1)), kind=SQ)
op('invert', 'I', [('r', Q)], lambda z, g, c: {0: {(i, j): inv_entry(z['I'], mat(g, 0), i, j) for i, j in II(z)}}, ret=lambda z, g, c: det(z['I'], mat(g, 0)), kind=SQ)
op('Ri_eq_symAijBj', 'I', [('d', V), ('s', SY), ('s', V)], lambda z, g, c: {0: {(i,): tot(sy(g, 1, z['I'])(i, j) * g(2, j) for j in R(z['I'])) for i in R(z['I'])}}, kind=SQ)
op('Ri_add_symAijBj', 'I', [('r', V), ('s', SY), ('s', V)], lambda z, g, c: {0: {(i,): g(0, i) + tot(sy(g, 1, z['I'])(i, j) * g(2, j) for j in R(z['I'])) for i in R(z['I'])}}, kind=SQ)
op('Rij_eq_symAikBjk', 'I', [('d', Q), ('s', SY), ('s', Q)], lambda z, g, c: {0: {(i, j): tot(sy(g, 1, z['I'])(i, k) * g(2, j, k) for k in R(z['I'])) for i, j in II(z)}}, kind=SQ)
op('Rij_eq_AikSymBklAjl', 'I', [('d', SY), ('s', Q), ('s', SY)],
   lambda z, g, c: {0: symout(z['I'], lambda i, j: tot(g(1, i, k) * sy(g, 2, z['I'])(k, l) * g(1, j, l) for k in R(z['I']) for l in R(z['I'])))}, kind=SQ)
op('symRij_eq_AiAj', 'I', [('d', SY), ('s', V)], lambda z, g, c: {0: symout(z['I'], lambda i, j: g(1, i) * g(1, j))}, kind=SQ)
op('symRij_eq_AiBj_plus_AjBi', 'I', [('d', SY), ('s', V), ('s', V)], lambda z, g, c: {0: symout(z['I'], lambda i, j: g(1, i) * g(2, j) + g(1, j) * g(2, i))}, kind=SQ)
op('symDeterminant', 'I', [('s', SY)], ret=lambda z, g, c: det(z['I'], sy(g, 0, z['I'])), kind=SQ)
op('symInvert', 'I', [('d', SY), ('s', SY)], lambda z, g, c: {0: symout(z['I'], lambda i, j: inv_entry(z['I'], sy(g, 1, z['I']), i, j))}, ret=lambda z, g, c: det(z['I'], sy(g, 1, z['I'])), kind=SQ)
op('symInvert', 'I', [('r', SY)], lambda z, g, c: {0: symout(z['I'], lambda i, j: inv_entry(z['I'], sy(g, 0, z['I']), i, j))}, ret=lambda z, g, c: det(z['I'], sy(g, 0, z['I'])), kind=SQ)
op('denseToSymmetric', 'I', [('d', SY), ('s', Q)], lambda z, g, c: {0: symout(z['I'], lambda i, j: g(1, i, j))}, kind=SQ)
op('symmetricToDense', 'I', [('d', Q), ('s', SY)], lambda z, g, c: {0: {(i, j): sy(g, 1, z['I'])(i, j) for i, j in II(z)}}, kind=SQ)
# extents only; accuracy of the eigenvalue formulas is a different property
op('symEigenvalues', 'I', [('d', V), ('s', SY)], kind=SQ)
op('symEigenvectors', 'I', [('d', V), ('d', Q), ('s', SY)], kind=SQ)


def sizes_of(o, deep=False):
    if o.kind == SQ:
        return [{'I': 2}, {'I': 3}]
    if o.sizes == '':
        return [{}]
    if o.sizes == 'I':
        return [{'I': n} for n in (range(1, 8) if deep else range(1, 5))]
    if o.sizes == 'IJ':
        r = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4)]
        if deep:
            r = [(i, j) for i in range(1, 6) for j in range(1, 6)]
        return [{'I': i, 'J': j} for i, j in r]
    r = [(1, 1, 1), (2, 2, 2), (2, 3, 4), (3, 1, 2), (1, 3, 2), (3, 3, 3), (4, 2, 3)]
    if deep:
        r = [(i, j, k) for i in range(1, 5) for j in range(1, 5) for k in range(1, 5)]
    return [{'I': i, 'J': j, 'K': k} for i, j, k in r]


def shapes(o, z):
    return [tuple(ev(e, z) for e in ext) for _, ext in o.operands]


def tmpl(o, z):
    a = [str(z[v]) for v in o.targs]
    return '< %s >' % ', '.join(a) if a else ''
