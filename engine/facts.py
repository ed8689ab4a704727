"""Linear-inequality abstract domain (polyhedra): entailment by Gaussian elimination and Fourier-Motzkin over
integers, monomials of degree > 1 taken as dimensions.  Boolean atoms are kept as literals."""
from math import gcd, floor, ceil
from fractions import Fraction
from .terms import Poly, Formula, neg, Atom, TRUE, FALSE, mk

LIMIT = 1500


def _int(t):
    """scale to integer coefficients"""
    den = 1
    for c in t.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    if den != 1:
        t = {m: int(c * den) for m, c in t.items()}
    return t


def _tight(t):
    """p <= 0 over integer dimensions: divide by gcd and round the constant."""
    t = _int(t)
    g = 0
    for m, c in t.items():
        if m != ():
            g = gcd(g, abs(int(c)))
    if g > 1:
        r = {}
        for m, c in t.items():
            if m == ():
                r[m] = -((-c) // g)  # ceil(c/g)
            else:
                r[m] = c // g
        if r.get((), 0) == 0:
            r.pop((), None)
        t = r
    return t


def _add(t1, f1, t2, f2):
    r = {}
    for m, c in t1.items():
        r[m] = c * f1
    for m, c in t2.items():
        n = r.get(m, 0) + c * f2
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def infeasible(les, eqs, nes=()):
    """les: list of dict (<=0), eqs: list of dict (==0).  True if no integer solution is provable."""
    les = [dict(_tight(t)) for t in les]
    eqs = [dict(_int(t)) for t in eqs]
    nes = [dict(_int(t)) for t in nes]
    # Gaussian elimination
    while eqs:
        e = eqs.pop()
        vs = [m for m in e if m != ()]
        if not vs:
            if e.get((), 0) != 0:
                return True
            continue
        g = 0
        for m in vs:
            g = gcd(g, abs(e[m]))
        if e.get((), 0) % g:
            return True
        if g > 1:
            e = {m: c // g for m, c in e.items()}
        v = min(vs, key=lambda m: (abs(e[m]), len(m), m))
        a = e[v]
        def sub(t, isle):
            c = t.get(v)
            if not c:
                return t
            # t*|a| - c*sign(a)*e
            s = abs(a)
            r = _add(t, s, e, -c * (1 if a > 0 else -1))
            return _tight(r) if isle else _int(r)
        les = [sub(t, True) for t in les]
        eqs = [sub(t, False) for t in eqs]
        nes = [sub(t, False) for t in nes]
    for t in nes:
        if not t:
            return True
    # drop trivial, detect contradictions
    def clean(ls):
        best = {}
        for t in ls:
            vs = tuple(sorted((m, c) for m, c in t.items() if m != ()))
            k = t.get((), 0)
            if not vs:
                if k > 0:
                    return None
                continue
            if vs not in best or best[vs] < k:
                best[vs] = k
        out = []
        for vs, k in best.items():
            t = dict(vs)
            if k:
                t[()] = k
            out.append(t)
            # direct opposite
            ov = tuple(sorted((m, -c) for m, c in vs))
            if ov in best and best[ov] + k > 0:
                return None
        return out
    # a disequality combined with a bound (x != 0, x >= 0  =>  x >= 1)
    for _ in range(3):
        les2 = clean(les)
        if les2 is None:
            return True
        les = les2
        changed = False
        if nes:
            idx = {tuple(sorted((m, c) for m, c in t.items() if m != ())): t.get((), 0) for t in les}
            for t in nes:
                for s in (1, -1):
                    vs = tuple(sorted((m, c * s) for m, c in t.items() if m != ()))
                    g = 0
                    for _, c in vs:
                        g = gcd(g, abs(c))
                    kk = t.get((), 0) * s
                    if g > 1 and kk % g == 0:
                        vs = tuple((m, c // g) for m, c in vs)
                        kk //= g
                    if vs in idx and idx[vs] == kk:
                        n = dict(vs)
                        n[()] = kk + 1
                        les.append(n)
                        changed = True
        if not changed:
            break
    les = clean(les)
    if les is None:
        return True
    # Fourier-Motzkin
    while True:
        cnt = {}
        for t in les:
            for m, c in t.items():
                if m != ():
                    p, n = cnt.get(m, (0, 0))
                    cnt[m] = (p + 1, n) if c > 0 else (p, n + 1)
        if not cnt:
            return False
        v = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1], m))
        pos = [t for t in les if t.get(v, 0) > 0]
        ngs = [t for t in les if t.get(v, 0) < 0]
        rest = [t for t in les if not t.get(v, 0)]
        if len(pos) * len(ngs) + len(rest) > LIMIT:
            return False
        for p in pos:
            for n in ngs:
                r = _add(p, -n[v], n, p[v])
                r.pop(v, None)
                rest.append(_tight(r))
        les = clean(rest)
        if les is None:
            return True


def _inner(at, acc):
    """the terms inside a compound term"""
    for x in at.args:
        _inner_x(x, acc)


def _inner_x(x, acc):
    if isinstance(x, Poly):
        for m in x.t:
            for a in m:
                if a not in acc:
                    acc.add(a)
                    _inner(Atom.byid[a], acc)
    elif isinstance(x, Formula):
        _inner_f(x, acc)
        if x.op in ('le', 'eq', 'ne'):
            _inner_x(x.a, acc)
    elif isinstance(x, Atom):
        acc.add(x.id)
        _inner(x, acc)
    elif isinstance(x, tuple):
        for y in x:
            _inner_x(y, acc)


def _inner_f(f, acc):
    if f.op in ('le', 'eq', 'ne'):
        for a in f.a.atoms():
            _inner(Atom.byid[a], acc)
    elif f.op == 'atom':
        _inner(f.a, acc)
    elif f.op != 'const':
        _inner_f(f.a, acc)
        if f.b is not None:
            _inner_f(f.b, acc)


class Facts:
    """conjunction of linear constraints and boolean literals"""
    __slots__ = ('les', 'eqs', 'nes', 'lits', 'ors', 'dead', '_cache', 'lay')

    def __init__(self):
        self.les, self.eqs, self.nes = [], [], []
        self.lits = {}
        self.ors = []
        self.dead = False
        self._cache = {}
        self.lay = ()

    def copy(self):
        f = Facts()
        f.les, f.eqs, f.nes = list(self.les), list(self.eqs), list(self.nes)
        f.lits = dict(self.lits)
        f.ors = list(self.ors)
        f.dead = self.dead
        f.lay = self.lay
        return f

    def add(self, f):
        self.addall([f])

    def addall(self, fs):
        """add several facts, then draw the consequences for the alternatives"""
        changed = False
        for f in fs:
            changed |= self._add(f)
        while changed and self.ors:
            changed = False
            ors, self.ors = self.ors, []
            for o in ors:
                if self.proves(neg(o.a)):
                    changed |= self._add(o.b)
                elif self.proves(neg(o.b)):
                    changed |= self._add(o.a)
                else:
                    self.ors.append(o)

    def has(self, f):
        return f.op == 'le' and f.a.t in self.les

    def _add(self, f):
        """-> something new"""
        if f.op == 'const':
            if f.a:
                return False
            self.dead = True
        elif f.op == 'le':
            if f.a.t in self.les:
                return False
            self.les.append(f.a.t)
        elif f.op == 'eq':
            if f.a.t in self.eqs:
                return False
            self.eqs.append(f.a.t)
        elif f.op == 'ne':
            # tighten against known bounds
            p = f.a
            if p.t in self.nes:
                return False
            self._cache = {}
            self.nes.append(p.t)
            if self.proves(mk('le', p)):
                self.les.append((p + 1).t)
            elif self.proves(mk('le', -p)):
                self.les.append((1 - p).t)
        elif f.op == 'and':
            a = self._add(f.a)
            return self._add(f.b) or a
        elif f.op == 'atom':
            if self.lits.get(f.a.id) is True:
                return False
            if self.lits.get(f.a.id) is False:
                self.dead = True
            self.lits[f.a.id] = True
        elif f.op == 'not' and f.a.op == 'atom':
            if self.lits.get(f.a.a.id) is False:
                return False
            if self.lits.get(f.a.a.id) is True:
                self.dead = True
            self.lits[f.a.a.id] = False
        elif f.op == 'or':
            if f in self.ors:
                return False
            if self.proves(neg(f.a)):
                return self._add(f.b)
            if self.proves(neg(f.b)):
                return self._add(f.a)
            self.ors.append(f)
            return False
        else:
            return False
        self._cache = {}
        return True

    def _relevant(self, t):
        """constraints sharing dimensions (transitively) with t"""
        want = set(m for m in t if m != ())
        # sign lemmas for products
        les, eqs, nes = [], [], []
        pool = [(0, c) for c in self.les] + [(1, c) for c in self.eqs] + [(2, c) for c in self.nes]
        used = [False] * len(pool)
        changed = True
        while changed:
            changed = False
            for i, (k, c) in enumerate(pool):
                if used[i]:
                    continue
                if any(m in want for m in c if m != ()):
                    used[i] = True
                    changed = True
                    (les, eqs, nes)[k].append(c)
                    if k != 2:
                        for m in c:
                            if m != ():
                                want.add(m)
        return les, eqs, nes, want

    def _lemmas(self, want):
        out = []
        for m in want:
            if len(m) == 2 and all(Atom.byid[a].kind != 'inv' for a in m):
                a, b = Poly({(m[0],): 1}), Poly({(m[1],): 1})
                if m[0] == m[1]:
                    out.append({m: -1})
                    continue
                la, lb = self.lower1(m[0]), self.lower1(m[1])
                if la is not None and lb is not None and la >= 0 and lb >= 0:
                    # (a - la)(b - lb) >= 0 and a*b >= 0
                    out.append({m: -1})
                    if la >= 1:
                        out.append({m: -1, (m[1],): 1})
                    if lb >= 1:
                        out.append({m: -1, (m[0],): 1})
            if len(m) >= 3 and all(Atom.byid[a].kind != 'inv' for a in m) and all((self.lower1(a) or 0) >= 0 and self.lower1(a) is not None for a in m):
                out.append({m: -1})
            if len(m) == 1:
                a = Atom.byid[m[0]]
                if a.kind == 'idiv' and a.args[1].isconst() and a.args[1].cval() > 0:
                    # q = p / d (truncating); for p >= 0: d q <= p <= d q + d - 1
                    p, d = a.args
                    if self._nonneg_quick(p):
                        q = Poly.of(a)
                        out.append((q * d - p).t)
                        out.append((p - q * d - d + 1).t)
        return out

    def _nonneg_quick(self, p):
        key = ('nn', p.key())
        if key in self._cache:
            return self._cache[key]
        self._cache[key] = False
        t = (p + 1).t  # p <= -1 infeasible?
        les, eqs, nes, _ = self._relevant(t)
        r = infeasible(les + [t], eqs, nes)
        self._cache[key] = r
        return r

    def lower1(self, aid):
        for c in (1, 0):
            t = {(aid,): 1}
            if c - 1:
                t[()] = -(c - 1)
            les, eqs, nes, _ = self._relevant(t)
            # x <= c-1 infeasible -> x >= c
            if infeasible(les + [t], eqs, nes):
                return c
        return None

    def proves(self, f):
        if self.dead:
            return True
        k = f.key()
        c = self._cache.get(k)
        if c is None:
            c = self._proves(f)
            if not c and (self.eqs or f.op in ('eq', 'le')):
                c = self._congruent(f)
            if not c and f.op in ('eq', 'le'):
                c = self._products(f)
            self._cache[k] = c
        return c

    def _products(self, f):
        """products x*c and y*c where x == y is known"""
        by = {}
        for m in f.a.t:
            if len(m) == 2:
                for x, c in (m, m[::-1]):
                    by.setdefault(c, set()).add(x)
        for c, xs in by.items():
            xs = sorted(xs)
            for i, x in enumerate(xs):
                for y in xs[i + 1:]:
                    px, py = Poly({(x,): 1}), Poly({(y,): 1})
                    if self.proves(mk('eq', px - py)):
                        a, v = (x, py) if Atom.byid[x].kind == 'sym' else (y, px)
                        return self.proves(f.subst({a: v}))
        return False

    def _congruent(self, f):
        """once more with the arguments of compound terms rewritten by the known equalities"""
        mp = self._cache.get('subst')
        if mp is None:
            inside = set()
            for t in self.les + self.eqs + self.nes:
                for m in t:
                    for a in m:
                        _inner(Atom.byid[a], inside)
            for a in self.lits:
                _inner(Atom.byid[a], inside)
            mp = {}
            # a bound that is attained
            met = []
            for t in self.les:
                if len(t) <= 2:
                    ms = [m for m in t if m != ()]
                    if len(ms) == 1 and len(ms[0]) == 1 and t[ms[0]] == 1 and ms[0][0] in inside and Atom.byid[ms[0][0]].kind == 'sym' and self._proves(mk('le', -Poly(t))):
                        met.append(t)
            for t in self.eqs + met:
                p = Poly(t).subst(mp) if mp else Poly(t)
                best = None
                for m, c in p.t.items():
                    if len(m) == 1 and abs(c) == 1 and Atom.byid[m[0]].kind == 'sym' and (best is None or m[0] > best[0]):
                        if sum(1 for m2 in p.t if m[0] in m2) == 1:
                            best = (m[0], c)
                if best is not None:
                    a, c = best
                    v = (Poly.of(Atom.byid[a]) - p.scale(c))
                    mp = {k: q.subst({a: v}) for k, q in mp.items()}
                    mp[a] = v
            self._cache['subst'] = mp
            self._cache['inside'] = inside
        if not mp:
            return False
        mine = set()
        _inner_f(f, mine)
        if not (mine & set(mp)) and not (self._cache['inside'] & set(mp)):
            return False
        g = self._cache.get('substituted')
        if g is None:
            g = Facts()
            for c in self.clauses():
                g.add(c.subst(mp))
            g.eqs = [t for t in g.eqs if t]
            self._cache['substituted'] = g
        if g.dead:
            return True
        f2 = f.subst(mp)
        c = g._cache.get(f2.key())
        if c is None:
            c = g._proves(f2)
            g._cache[f2.key()] = c
        return c

    def _inf(self, extra_le=(), extra_eq=(), seed=None):
        les, eqs, nes, want = self._relevant(seed)
        lem = self._lemmas(want)
        if lem:
            s2 = dict(seed)
            for l in lem:
                for m in l:
                    s2.setdefault(m, 1)
            les, eqs, nes, want = self._relevant(s2)
        return infeasible(les + lem + list(extra_le), eqs + list(extra_eq), nes)

    def _proves(self, f):
        if f.op == 'const':
            return f.a
        if f.op == 'le':
            t = (1 - f.a).t
            return self._inf(extra_le=[t], seed=t)
        if f.op == 'eq':
            return self._proves(mk('le', f.a)) and self._proves(mk('le', -f.a))
        if f.op == 'ne':
            return self._inf(extra_eq=[f.a.t], seed=f.a.t) or self._proves(mk('le', f.a + 1)) or self._proves(mk('le', 1 - f.a))
        if f.op == 'and':
            return self.proves(f.a) and self.proves(f.b)
        if f.op == 'or':
            if f in self.ors or self.proves(f.a) or self.proves(f.b):
                return True
            g = self.copy()
            g.add(neg(f.a))
            return g.proves(f.b)
        if f.op == 'atom':
            return self.lits.get(f.a.id) is True
        if f.op == 'not':
            if f.a.op == 'atom':
                return self.lits.get(f.a.a.id) is False
        return False

    def contradictory(self):
        """is the whole conjunction infeasible?"""
        if self.dead:
            return True
        allm = {}
        for c in self.les + self.eqs + self.nes:
            for m in c:
                if m != ():
                    allm[m] = 1
        if not allm:
            return False
        return self._inf(seed=allm)

    def clauses(self):
        return [Formula('le', Poly(t)) for t in self.les] + [Formula('eq', Poly(t)) for t in self.eqs] + [Formula('ne', Poly(t)) for t in self.nes] + \
            [Formula('atom', Atom.byid[a]) if v else neg(Formula('atom', Atom.byid[a])) for a, v in self.lits.items()] + list(self.ors)
