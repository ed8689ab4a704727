"""Symbolic terms of the abstract domain: integer/rational polynomials over interned atoms, and boolean formulas."""
from fractions import Fraction


class Atom:
    __slots__ = ('id', 'kind', 'args', 'name')
    table = {}
    byid = []
    addr = {}  # a pointer found in memory: where

    def __repr__(self):
        return self.name


def atom(kind, *args, name=None):
    key = (kind,) + args
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.id = len(Atom.byid)
        a.kind = kind
        a.args = args
        a.name = name or (str(args[0]) if kind in ('sym', 'base') and args else '%s(%s)' % (kind, ', '.join(map(str, args))))
        if len(a.name) > 300:
            a.name = '%s...#%d)' % (a.name[:300], a.id)
        Atom.table[key] = a
        Atom.byid.append(a)
    return a


MAXTERMS = 40000
_fresh = {}


def fresh(prefix='t', kind='sym'):
    n = _fresh.get(prefix, 0)
    _fresh[prefix] = n + 1
    return atom(kind, '%s#%d' % (prefix, n))


class Poly:
    """sum of coef * monomial; a monomial is a sorted tuple of atom ids."""
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        if isinstance(c, Poly):
            return c
        return Poly({(): c} if c else {})

    @staticmethod
    def of(a):
        return Poly({(a.id,): 1})

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __add__(self, o):
        o = Poly.const(o)
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-Poly.const(o))

    def __rsub__(self, o):
        return Poly.const(o) - self

    def __mul__(self, o):
        o = Poly.const(o)
        if len(self.t) * len(o.t) > MAXTERMS:
            return Poly.of(atom('prod', *sorted((self, o), key=Poly.key), name='hv#big'))
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mulmono(m1, m2)
                n = r.get(m, 0) + c1 * c2
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__

    def scale(self, f):
        if not f:
            return Poly({})
        return Poly({m: _norm(c * f) for m, c in self.t.items()})

    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def subst(self, mp):
        """mp: atom id -> Poly.  Also rewrites inside compound atoms."""
        out = Poly({})
        cache = {}
        for m, c in self.t.items():
            term = Poly({(): c})
            for a in m:
                if a not in cache:
                    cache[a] = subst_atom(a, mp)
                term = term * cache[a]
            out = out + term
        return out

    def coef_of(self, aid):
        """If linear in atom: (coefficient poly, rest) else None."""
        co, rest = {}, {}
        for m, c in self.t.items():
            k = m.count(aid)
            if k == 0:
                rest[m] = c
            elif k == 1:
                l = list(m)
                l.remove(aid)
                co[tuple(l)] = c
            else:
                return None
        return Poly(co), Poly(rest)

    def divexact(self, d):
        """exact division by another polynomial (single-term or proportional); None if it does not divide."""
        d = Poly.const(d)
        if not d.t:
            return None
        if len(d.t) == 1:
            (dm, dc), = d.t.items()
            r = {}
            for m, c in self.t.items():
                l = list(m)
                for a in dm:
                    if a not in l:
                        return None
                    l.remove(a)
                q = Fraction(c) / dc
                r[tuple(l)] = _norm(q)
            return Poly(r)
        if not self.t:
            return self
        # proportionality by a constant
        m0 = next(iter(d.t))
        if m0 in self.t:
            f = Fraction(self.t[m0]) / d.t[m0]
            if self == d.scale(f):
                return Poly.const(_norm(f))
        # division by the leading term (graded lexicographic order)
        key = lambda m: (len(m), tuple(-x for x in m))
        dm = max(d.t, key=key)
        r, q = self, {}
        for _ in range(32):
            if not r.t:
                return Poly(q)
            m = max(r.t, key=key)
            l = list(m)
            for a in dm:
                if a not in l:
                    return None
                l.remove(a)
            c = _norm(Fraction(r.t[m]) / d.t[dm])
            q[tuple(l)] = c
            r = r - d * Poly({tuple(l): c})
        return None

    def isint(self):
        return all(isinstance(c, int) or c.denominator == 1 for c in self.t.values())

    def __repr__(self):
        if not self.t:
            return '0'
        parts = []
        for m, c in sorted(self.t.items())[:60]:
            names = '*'.join(Atom.byid[a].name for a in m)
            if not names:
                parts.append(str(c))
            elif c == 1:
                parts.append(names)
            elif c == -1:
                parts.append('-' + names)
            else:
                parts.append('%s*%s' % (c, names))
        return ' + '.join(parts).replace('+ -', '- ')


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def _mulmono(a, b):
    """products of monomials; x * inv(x) cancels."""
    if not a:
        return b
    if not b:
        return a
    l = list(a)
    for x in b:
        at = Atom.byid[x]
        inv = None
        if at.kind == 'inv' and isinstance(at.args[0], Poly):
            p = at.args[0]
            if len(p.t) == 1:
                (mm, cc), = p.t.items()
                if len(mm) == 1 and cc == 1 and mm[0] in l:
                    l.remove(mm[0])
                    continue
        l2 = None
        for y in l:
            ay = Atom.byid[y]
            if ay.kind == 'inv' and isinstance(ay.args[0], Poly) and ay.args[0].t == {(x,): 1}:
                l2 = y
                break
        if l2 is not None:
            l.remove(l2)
            continue
        l.append(x)
    return tuple(sorted(l))


def subst_atom(aid, mp):
    if aid in mp:
        return mp[aid]
    a = Atom.byid[aid]
    if a.kind in ('sym', 'base'):
        return Poly.of(a)
    new = tuple(_subst_arg(x, mp) for x in a.args)
    if new == a.args:
        return Poly.of(a)
    return rebuild(a.kind, new)


def _subst_arg(x, mp):
    if isinstance(x, Poly):
        return x.subst(mp)
    if isinstance(x, Atom):
        p = subst_atom(x.id, mp)
        return p
    if isinstance(x, Formula):
        return x.subst(mp)
    if isinstance(x, tuple):
        return tuple(_subst_arg(y, mp) for y in x)
    return x


def rebuild(kind, args):
    if kind == 'inv':
        return inverse(args[0])
    if kind == 'idiv':
        return idiv(args[0], args[1])
    if kind == 'select':
        c = args[0]
        if isinstance(c, Formula) and c.op == 'const':
            return args[1] if c.a else args[2]
    return Poly.of(atom(kind, *args))


def inverse(p):
    p = Poly.const(p)
    if p.isconst() and p.cval():
        return Poly.const(_norm(Fraction(1) / p.cval()))
    if len(p.t) == 1:
        # invert monomial-wise
        (m, c), = p.t.items()
        r = Poly.const(_norm(Fraction(1) / c))
        for a in m:
            at = Atom.byid[a]
            if at.kind == 'inv':
                r = r * at.args[0]
            else:
                r = r * Poly.of(atom('inv', Poly({(a,): 1})))
        return r
    # normalise scale so that proportional denominators share an atom
    lead = p.t[min(p.t)]
    q = p.scale(Fraction(1) / lead)
    return Poly.of(atom('inv', q)).scale(Fraction(1) / lead)


def idiv(p, q):
    p, q = Poly.const(p), Poly.const(q)
    if p.isconst() and q.isconst() and q.cval():
        a, b = int(p.cval()), int(q.cval())
        r = abs(a) // abs(b)
        return Poly.const(r if (a < 0) == (b < 0) else -r)
    if q.isconst() and q.cval():
        r = p.divexact(q)
        if r is not None and r.isint():
            return r
    else:
        r = p.divexact(q)
        if r is not None and r.isint():
            return r
    return Poly.of(atom('idiv', p, q))


def const(c):
    return Poly.const(c)


def sym(name):
    return Poly.of(atom('sym', name))


class Formula:
    """op: const(a) | le(p): p<=0 | eq(p): p==0 | ne(p) | not(f) | and(f,g) | or(f,g) | atom(A)"""
    __slots__ = ('op', 'a', 'b', '_k')

    def __init__(self, op, a, b=None):
        self.op, self.a, self.b = op, a, b
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.op, self.a, self.b)
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Formula) and self.key() == o.key()

    def subst(self, mp):
        if self.op == 'const':
            return self
        if self.op in ('le', 'eq', 'ne'):
            return mk(self.op, self.a.subst(mp))
        if self.op == 'not':
            return neg(self.a.subst(mp))
        if self.op == 'atom':
            new = tuple(_subst_arg(x, mp) for x in self.a.args)
            if new == self.a.args:
                return self
            return batom(self.a.kind, *new)
        if self.op == 'and':
            return conj(self.a.subst(mp), self.b.subst(mp))
        return disj(self.a.subst(mp), self.b.subst(mp))

    def __repr__(self):
        if self.op == 'const':
            return str(self.a)
        if self.op == 'le':
            return '%r <= 0' % self.a
        if self.op == 'eq':
            return '%r == 0' % self.a
        if self.op == 'ne':
            return '%r != 0' % self.a
        if self.op == 'not':
            return '!(%r)' % self.a
        if self.op == 'atom':
            return self.a.name
        return '(%r %s %r)' % (self.a, '&&' if self.op == 'and' else '||', self.b)


TRUE = Formula('const', True)
FALSE = Formula('const', False)


def mk(op, p):
    if p.isconst():
        v = p.cval()
        return TRUE if (v <= 0 if op == 'le' else v == 0 if op == 'eq' else v != 0) else FALSE
    if op in ('eq', 'ne'):
        # canonical sign
        m0 = min(p.t)
        lead = p.t[max(p.t)]
        if lead < 0:
            p = -p
    return Formula(op, p)


def le(p, q):
    return mk('le', Poly.const(p) - q)


def lt(p, q):
    return mk('le', Poly.const(p) - q + 1)


def ge(p, q):
    return le(q, p)


def gt(p, q):
    return lt(q, p)


def eq(p, q):
    return mk('eq', Poly.const(p) - q)


def ne(p, q):
    return mk('ne', Poly.const(p) - q)


def batom(kind, *args):
    return Formula('atom', atom(kind, *args))


def neg(f):
    if f.op == 'const':
        return FALSE if f.a else TRUE
    if f.op == 'not':
        return f.a
    if f.op == 'le':
        return mk('le', 1 - f.a)
    if f.op == 'eq':
        return Formula('ne', f.a)
    if f.op == 'ne':
        return Formula('eq', f.a)
    if f.op == 'and':
        return disj(neg(f.a), neg(f.b))
    if f.op == 'or':
        return conj(neg(f.a), neg(f.b))
    return Formula('not', f)


def conj(f, g):
    if f.op == 'const':
        return g if f.a else FALSE
    if g.op == 'const':
        return f if g.a else FALSE
    if f == g:
        return f
    return Formula('and', f, g)


def disj(f, g):
    if f.op == 'const':
        return TRUE if f.a else g
    if g.op == 'const':
        return TRUE if g.a else f
    if f == g:
        return f
    return Formula('or', f, g)
