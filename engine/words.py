"""Functions that scan a text character by character.

Abstract interpretation of the function together with a specification automaton: the control state (constants in registers and local
memory, the class of the character looked at, what is left of the text: nothing, one character, more) is explored as it is, quantities that
grow with the text are related to those of the specification by an affine domain (Karr). Every text of every length is covered: a state of
a loop is joined with what reached it before until nothing new arises."""
import re
from fractions import Fraction


class Unsupported(Exception):
    pass


class _More(Exception):
    def __init__(self, what):
        self.what = what


class Lin:
    __slots__ = ('t', 'c')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = {k: v for k, v in dict(t).items() if v}

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Lin(self.c + o.c, t)

    def scale(self, k):
        return Lin(self.c * k, {a: b * k for a, b in self.t.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def isconst(self):
        return not self.t

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, tuple(sorted(self.t.items(), key=repr))))

    def __repr__(self):
        return ' + '.join(['%s%s' % ('' if v == 1 else '%s ' % v, k) for k, v in sorted(self.t.items(), key=repr)] + ([str(self.c)] if self.c or not self.t else []))


def V(n):
    return Lin(0, {n: 1})


class Aff:
    """affine hull of the points met: one point and directions (reduced echelon form)"""

    def __init__(self, names, p, dirs=()):
        self.names = tuple(names)
        self.ix = {n: i for i, n in enumerate(self.names)}
        self.p = [Fraction(x) for x in p]
        self.d = []
        for v in dirs:
            self._add([Fraction(x) for x in v])
        self._canon()

    def _red(self, v):
        for piv, w in self.d:
            if v[piv]:
                k = v[piv]
                v = [a - k * b for a, b in zip(v, w)]
        return v

    def _add(self, v):
        v = self._red(v)
        piv = next((i for i, x in enumerate(v) if x), None)
        if piv is None:
            return False
        v = [x / v[piv] for x in v]
        self.d = [(q, [a - w[piv] * b for a, b in zip(w, v)]) for q, w in self.d] + [(piv, v)]
        self.d.sort(key=lambda x: x[0])
        return True

    def _canon(self):
        self.p = self._red(self.p)

    def ev(self, l):
        """(value at the point, has it a direction)"""
        c = Fraction(l.c)
        for k, v in l.t.items():
            c += v * self.p[self.ix[k]]
        ds = []
        for _, w in self.d:
            ds.append(sum((v * w[self.ix[k]] for k, v in l.t.items()), Fraction(0)))
        return c, ds

    def const(self, l):
        if any(k not in self.ix for k in l.t):
            return None
        c, ds = self.ev(l)
        return None if any(ds) else c

    def zero(self, l):
        """restricted to l == 0, None if empty"""
        c, ds = self.ev(l)
        j = next((i for i, x in enumerate(ds) if x), None)
        if j is None:
            return self if c == 0 else None
        w = self.d[j][1]
        p = [a - c / ds[j] * b for a, b in zip(self.p, w)]
        dirs = [[a - ds[i] / ds[j] * b for a, b in zip(v, w)] for i, (_, v) in enumerate(self.d) if i != j]
        return Aff(self.names, p, dirs)

    def image(self, names, lins):
        """under the assignment of all names at once"""
        p, dirs = [], [[] for _ in self.d]
        for l in lins:
            c, ds = self.ev(l)
            p.append(c)
            for i, x in enumerate(ds):
                dirs[i].append(x)
        return Aff(names, p, dirs)

    def assign(self, name, l):
        return self.image(self.names, [l if n == name else V(n) for n in self.names])

    def join(self, o):
        """(hull of both, is it larger than this)"""
        r = Aff(self.names, self.p, [w for _, w in self.d])
        grown = False
        for _, w in o.d:
            grown |= r._add(list(w))
        grown |= r._add([a - b for a, b in zip(o.p, r.p)])
        r._canon()
        return r, grown


UNK = ('unk', None)


def unk(tag=None):
    return ('unk', tag)


class Text:
    """content of a string: what was done to it and how far it was looked at"""
    __slots__ = ('ver', 'props', 'spec', 'pend', 'prev', 'left', 'started', 'nval', 'mark', 'scans')

    def __init__(self, ver, props):
        self.ver, self.props = ver, props
        self.spec = self.pend = self.prev = None
        self.left, self.started, self.nval, self.mark, self.scans = 3, False, None, False, 0

    def copy(self):
        r = Text(self.ver, self.props)
        for k in ('spec', 'pend', 'prev', 'left', 'started', 'nval', 'mark', 'scans'):
            setattr(r, k, getattr(self, k))
        return r

    def key(self):
        return tuple(getattr(self, k) for k in self.__slots__)


class State:
    def __init__(self):
        self.env, self.mem, self.zero = {}, {}, {}
        self.aff = None
        self.text = None
        self.strs = {}
        self.done = frozenset()
        self.events = ()
        self.same = frozenset()
        self.taint = False
        self.trail = ()
        self.nver = 0
        self.neq = ()

    def copy(self):
        r = State()
        r.env, r.mem, r.zero = dict(self.env), dict(self.mem), {k: set(v) for k, v in self.zero.items()}
        r.aff, r.text, r.strs = self.aff, self.text and self.text.copy(), dict(self.strs)
        r.done, r.events, r.same, r.taint, r.trail, r.nver, r.neq = self.done, self.events, self.same, self.taint, self.trail, self.nver, self.neq
        return r


class Fork(Exception):
    """go on with each of these states, at the same instruction"""

    def __init__(self, states):
        self.states = states


class Scan:
    """spec: object with start(props) -> state or None, step(state, class) -> [(state, ops)], complete(state), viable(state), names (counters)"""
    LIMIT = 1000000
    MANY = 6

    def __init__(self, js, fname, spec, hooks):
        self.fn = next(f for f in js['functions'] if f['name'] == fname)
        self.globals = {g['name']: g for g in js['globals']}
        self.blocks = {b['id']: b for b in self.fn['blocks']}
        self.order = [b['id'] for b in self.fn['blocks']]
        self.spec, self.hooks = spec, hooks
        self.base = ('P',) + tuple(spec.names)
        self.results = []
        self.cells = {}
        self._loops()
        self._live()

    # ---- structure

    def succ(self, b):
        i = self.blocks[b]['insts'][-1]
        if i['op'] == 'switch':
            return [i['def']] + [c[1] for c in i['cases']]
        return list(i.get('succ', ()))

    def _loops(self):
        self.headers, seen, path = set(), set(), set()
        stack = [(self.order[0], iter(self.succ(self.order[0])))]
        seen.add(self.order[0])
        path.add(self.order[0])
        while stack:
            b, it = stack[-1]
            n = next(it, None)
            if n is None:
                stack.pop()
                path.discard(b)
            elif n in path:
                self.headers.add(n)
            elif n not in seen:
                seen.add(n)
                path.add(n)
                stack.append((n, iter(self.succ(n))))

    @staticmethod
    def uses(i):
        out = []

        def go(x):
            if isinstance(x, dict):
                if x.get('k') == 'v':
                    out.append(x['v'])
                for v in x.values():
                    go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
        go({k: v for k, v in i.items() if k not in ('loc', 'in', 'attr')})
        return out

    def _live(self):
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                out = set()
                for s in self.succ(b):
                    ins = self.blocks[s]['insts']
                    phis = {i['id'] for i in ins if i['op'] == 'phi'}
                    out |= live[s] - phis
                    for i in ins:
                        if i['op'] == 'phi':
                            out |= {v['v'] for v, p in i['in'] if p == b and v.get('k') == 'v'}
                for i in reversed(self.blocks[b]['insts']):
                    out.discard(i['id'])
                    if i['op'] != 'phi':
                        out |= set(self.uses(i))
                    else:
                        out.add(i['id'])
                if out != live[b]:
                    live[b] = out
                    ch = True
        self.live = live

    # ---- run

    def run(self):
        self.classes = ['{', '}', ',', ' ', 'other']
        self.counters = set()
        for _ in range(12):
            try:
                return self._run()
            except _More as m:
                if m.what[0] == 'class':
                    self.classes.insert(0, m.what[1])
                else:
                    self.counters.add(m.what[1])
        raise Unsupported('no end to the classes')

    def _run(self):
        self.results, self.seen, self.vals, self.n = {}, {}, {}, 0
        st = State()
        st.aff = Aff(self.base, [0] * len(self.base))
        for k, a in enumerate(self.fn['args']):
            st.env[a['id']] = ('ptr', ('arg', k), Lin()) if a['ty'] == 'ptr' else UNK
        self.hooks.start(self, st)
        work = [(self.order[0], None, st)]
        while work:
            b, prev, st = work.pop()
            work += self.walk(b, prev, st)
        return self.results

    def report(self, label, ok, what, st, ins):
        loc = None
        for f, l, n in (ins or {}).get('loc') or ():
            loc = '%s:%s' % (re.sub(r'^.*?/(src/)', r'\1', f), l)
            if '/src/' in f or f.startswith('src/'):
                break
        k = (label, loc, what if not ok else '')
        r = self.results.setdefault((label, loc), [0, {}])
        if ok:
            r[0] += 1
        else:
            r[1].setdefault(what, '; '.join(st.trail[-12:]))

    def walk(self, b, prev, st):
        if b in self.headers or prev is None:
            st = self.arrive(b, prev, st)
            if st is None:
                return []
            start = st.hdr
        else:
            start = None
        ins = self.blocks[b]['insts']
        if start is None:
            self.phis(b, prev, st)
        todo, out = [(st, 0)], []
        while todo:
            st, k = todo.pop()
            while True:
                self.n += 1
                if self.n > self.LIMIT:
                    raise Unsupported('too many states')
                i = ins[k]
                if i['op'] == 'phi':
                    k += 1
                    continue
                try:
                    nx = self.inst(st, i)
                except Fork as f:
                    todo += [(s, k) for s in f.states]
                    break
                if nx is None:
                    k += 1
                    continue
                for t, s in nx:
                    out.append((t, b, s))
                break
        return out

    def phis(self, b, prev, st):
        new = {}
        for i in self.blocks[b]['insts']:
            if i['op'] != 'phi':
                break
            for v, p in i['in']:
                if p == prev:
                    new[i['id']] = self.val(st, v)
                    break
            else:
                raise Unsupported('phi')
        st.env.update(new)

    def arrive(self, b, prev, st):
        """join at the head of a loop; None when nothing is new"""
        st = st.copy()
        if prev is not None:
            self.phis(b, prev, st)
        st.env = {k: v for k, v in st.env.items() if k in self.live[b]}
        st.taint, st.neq = False, ()
        names, lins, key = list(self.base), [V(n) for n in self.base], []

        def put(var, v):
            """(what the key says, the value from here on)"""
            if isinstance(v, Lin):
                n = {k: x for k, x in v.t.items() if isinstance(k, tuple) and k[0] == 'N'}
                rest = Lin(v.c, {k: x for k, x in v.t.items() if k not in n})
                c = st.aff.const(rest)
                nl = Lin(0, n)
                if c is not None and (b, var) not in self.counters:
                    if not n:
                        s = self.vals.setdefault((b, var), set())
                        s.add(c)
                        if len(s) > self.MANY:
                            raise _More(('counter', (b, var)))
                    return ('c', c, tuple(n.items())), Lin(c) + nl
                names.append(var)
                lins.append(rest)
                return ('A', tuple(n.items())), V(var) + nl
            if v[0] == 'ptr':
                k, o = put(var, v[2])
                return ('p', v[1], k), ('ptr', v[1], o)
            if v[0] == 'unk':
                return 'u', UNK
            return v, v
        for k in sorted(st.env):
            r, st.env[k] = put(('s', k), st.env[k])
            key.append((k, r))
        for k in sorted(st.mem, key=repr):
            sz, v = st.mem[k]
            r, v = put(('m',) + k, v)
            st.mem[k] = (sz, v)
            key.append((k, sz, r))
        key.append(tuple(sorted((repr(k), tuple(sorted(v))) for k, v in st.zero.items())))
        key.append(st.text and st.text.key())
        key.append(tuple(sorted(st.strs.items(), key=repr)))
        key += [st.done, st.events, st.same, st.nver]
        key = (b, tuple(key))
        a = st.aff.image(names, lins)
        old = self.seen.get(key)
        if old is not None:
            a, grown = old.join(a)
            if not grown:
                return None
        self.seen[key] = a
        st.aff = a
        st.hdr = b
        st.trail = st.trail[-11:]
        return st

    # ---- values

    def val(self, st, o):
        k = o.get('k')
        if k == 'v':
            return st.env.get(o['v'], UNK)
        if k == 'int':
            c = int(o['i'])
            if o.get('w') == 1:
                c &= 1
            return Lin(c)
        if k == 'glob':
            return ('ptr', ('glob', o['g']), Lin())
        if k == 'null':
            return Lin(0)
        return UNK

    def string(self, v):
        """the characters of a literal"""
        if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'glob' and v[2] == Lin():
            return (self.globals.get(v[1][1], {}).get('str') or '').rstrip('\0') if 'str' in self.globals.get(v[1][1], {}) else None
        return None

    def const(self, st, v):
        if not isinstance(v, Lin):
            return None
        c = st.aff.const(v)
        return int(c) if c is not None and c.denominator == 1 else None

    # ---- the text

    def content(self, st, p, what='string'):
        """of the string object pointed to: it becomes the one looked at"""
        if not (isinstance(p, tuple) and p[0] == 'ptr') or (p[1], repr(p[2])) not in st.strs:
            raise Unsupported('%s not followed' % what)
        ver, props = st.strs[(p[1], repr(p[2]))]
        if st.text is None or st.text.ver != ver:
            if st.text is not None:
                self.finish(st)
            self.begin(st, ver, props)
        return st.text

    def begin(self, st, ver, props):
        t = Text(ver, props)
        if st.text is not None and st.text.ver == ver:
            t.scans = st.text.scans + 1
        t.spec = self.spec.start(props)
        st.text = t
        for n in self.base:
            self.drop(st, n)
            st.aff = st.aff.assign(n, Lin())

    def drop(self, st, name):
        """values that speak of a counter about to change are kept under a name of their own"""
        def dep(v):
            return isinstance(v, Lin) and name in v.t or isinstance(v, tuple) and v[0] == 'ptr' and name in v[2].t
        st.neq = tuple(l for l in st.neq if name not in l.t)
        hit = [x for x in list(st.env.values()) + [y[1] for y in st.mem.values()] if dep(x)]
        if not hit:
            return
        self.cp = getattr(self, 'cp', 0) + 1
        n = ('was', name, self.cp)
        st.aff = st.aff.image(st.aff.names + (n,), [V(x) for x in st.aff.names] + [V(name)])

        def sub(l):
            return l if name not in l.t else Lin(l.c, {(n if k == name else k): x for k, x in l.t.items()})

        def new(v):
            if isinstance(v, Lin):
                return sub(v)
            return ('ptr', v[1], sub(v[2]))
        for k, v in list(st.env.items()):
            if dep(v):
                st.env[k] = new(v)
        for k, (s, v) in list(st.mem.items()):
            if dep(v):
                st.mem[k] = (s, new(v))

    def split_left(self, st):
        out = []
        for r in (0, 1, 2):
            s = st.copy()
            if s.text.nval is not None and min(s.text.nval, 2) != r:
                continue
            s.text.left = r
            out.append(s)
        raise Fork(out)

    def consume(self, st):
        """the specification takes the character looked at"""
        t = st.text
        if t.left == 3:
            self.split_left(st)
        if t.left == 0:
            raise Unsupported('character past the end')
        outs = []
        for spec, ops in self.spec.step(t.spec, t.pend, t.mark):
            for left in ((0,) if t.left == 1 else (1, 2)):
                s = st.copy()
                x = s.text
                x.spec, x.prev, x.pend, x.left, x.started, x.mark = spec, t.pend, None, left, True, False
                ok = True
                for op in [('set', 'P', Lin(1) + V('P'))] + list(ops):
                    if op[0] == 'set':
                        self.drop(s, op[1])
                        s.aff = s.aff.assign(op[1], op[2])
                    elif op[0] == 'eq':
                        s.aff = s.aff.zero(op[1])
                        if s.aff is None or any(s.aff.const(l) == 0 for l in s.neq):
                            ok = False
                            break
                    elif op[0] == 'ne':
                        if s.aff.const(op[1]) == 0:
                            ok = False
                            break
                if ok:
                    outs.append(s)
        raise Fork(outs)

    def finish(self, st):
        """the function is done with this content"""
        t = st.text
        if t is None or t.spec is None:
            return
        if t.pend is not None:
            self.consume(st)
        if t.left == 3:
            if not t.started:
                return
            self.split_left(st)
        if t.left == 0 and self.spec.complete(t.spec):
            st.done |= {(t.ver, 'ok')}

    def load_text(self, st, ptr, ins):
        obj, ver = ptr[1][1], ptr[1][2]
        t = st.text
        if t is None or t.ver != ver:
            raise Unsupported('characters of an earlier content')
        if 'garbage' in t.props:
            raise Unsupported('content after remove')
        if self.const(st, ptr[2]) == 0 and t.started and self.const(st, V('P')) not in (0, 1):
            self.finish(st)
            self.begin(st, ver, t.props)
            t = st.text
        d = st.aff.const(ptr[2] - V('P'))
        if d is None:
            raise Unsupported('position %r' % ptr[2])
        if d == -1 and t.prev is not None:
            return self.char(t.prev)
        if d == 0 and t.pend is not None:
            return self.char(t.pend)
        if t.left == 3:
            self.split_left(st)
        if t.pend is not None and d >= 1:
            self.consume(st)
        if d == 0:
            if t.left == 0:
                self.report(self.hooks.BOUNDS, True, '', st, ins)
                return Lin(0)
            self.report(self.hooks.BOUNDS, True, '', st, ins)
            out = []
            for c in self.possible(t):
                s = st.copy()
                s.text.pend = c
                s.trail += ("sees '%s'" % c if len(c) == 1 else 'sees another character',)
                out.append(s)
            raise Fork(out)
        if d > 0:
            if d > t.left and t.left < 2:
                self.report(self.hooks.BOUNDS, False, 'reads %d past the end of the text' % (d - t.left), st, ins)
                raise Fork([])
            if d > 2:
                raise Unsupported('looks far ahead')
            # a character skipped
            out = []
            for c in self.possible(t):
                s = st.copy()
                s.text.pend = c
                out.append(s)
            raise Fork(out)
        raise Unsupported('looks back')

    def possible(self, t):
        gone = {p[1] for p in t.props if p[0] in ('without', 'repl')} - {p[2] for p in t.props if p[0] == 'repl'}
        return [c for c in self.classes if c not in gone]

    @staticmethod
    def char(c):
        return ('other',) if c == 'other' else Lin(ord(c))

    # ---- instructions

    def inst(self, st, i):
        op = i['op']
        f = getattr(self, 'i_' + op, None)
        if f is None:
            st.env[i['id']] = UNK
            return None
        return f(st, i)

    def i_alloca(self, st, i):
        self.cells[('alloca', i['id'])] = i['asz']
        st.env[i['id']] = ('ptr', ('alloca', i['id']), Lin())

    def i_br(self, st, i):
        if len(i['succ']) == 1:
            return [(i['succ'][0], st)]
        r = []
        for s, c in self.cond(st, i['c'], i):
            r.append((i['succ'][0 if c else 1], s))
        return r

    def cond(self, st, o, i):
        v = self.val(st, o)
        if isinstance(v, Lin):
            c = self.const(st, v)
            if c is None:
                raise Unsupported('condition')
            return [(st, bool(c))]
        if v[0] == 'cmp':
            # an equality of counters not yet known
            out = []
            e = st.aff.zero(v[1])
            if e is not None and not any(e.const(l) == 0 for l in st.neq):
                s = st.copy()
                s.aff = e
                out.append((s, v[2]))
            if st.aff.const(v[1]) != 0:
                s = st.copy()
                s.neq += (v[1],)
                out.append((s, not v[2]))
            return out
        if v[0] == 'len':
            # is the length this
            a, b = st.copy(), st.copy()
            a.text.nval = v[1]
            a.taint = b.taint = True
            return [(a, v[2]), (b, not v[2])]
        if v[0] == 'unk':
            a, b = st.copy(), st.copy()
            a.taint = b.taint = True
            if v[1] is not None:
                a.same |= {v[1] + (True,)}
                b.same |= {v[1] + (False,)}
            return [(a, True), (b, False)]
        raise Unsupported('condition %r' % (v,))

    def i_switch(self, st, i):
        v = self.val(st, i['c'])
        if v == ('other',):
            for c, _ in i['cases']:
                self.special(c)
            return [(i['def'], st)]
        if isinstance(v, Lin):
            c = self.const(st, v)
            if c is None:
                raise Unsupported('switch')
            for k, b in i['cases']:
                if int(k) == c:
                    return [(b, st)]
            return [(i['def'], st)]
        out = []
        for b in [i['def']] + [c[1] for c in i['cases']]:
            s = st.copy()
            s.taint = True
            out.append((b, s))
        return out

    def special(self, c):
        if 0 < c < 256 and chr(c) not in self.classes:
            raise _More(('class', chr(c)))

    def i_icmp(self, st, i):
        a, b = (self.val(st, o) for o in i['ops'])
        st.env[i['id']] = self.compare(st, i['pred'], a, b)

    def compare(self, st, p, a, b):
        for x, y in ((a, b), (b, a)):
            if x == ('other',):
                c = self.const(st, y)
                if p in ('eq', 'ne') and c is not None:
                    self.special(c)
                    return Lin(int(p == 'ne'))
                if y == ('other',):
                    raise Unsupported('characters compared')
                raise Unsupported('order of characters')
        if isinstance(a, tuple) and a[0] == 'ptr' and isinstance(b, tuple) and b[0] == 'ptr':
            if a[1] != b[1]:
                if p in ('eq', 'ne') and a[1][0] != 'chars' and b[1][0] != 'chars':
                    return Lin(int(p == 'ne'))
                return UNK
            a, b = a[2], b[2]
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            n = [k for k in d.t if isinstance(k, tuple) and k[0] == 'N']
            if n:
                return self.length(st, p, d, n)
            c = st.aff.const(d)
            if c is not None:
                return Lin(int(self.test(p, c, st, a, b)))
            if p in ('eq', 'ne'):
                return ('cmp', d, p == 'eq')
            raise Unsupported('order of counters')
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == 'unk' and x[1] is not None and p in ('eq', 'ne') and self.const(st, y) is not None:
                t = x[1] + (self.const(st, y),)
                return unk(t if p == 'eq' else ('not',) + t)
        return UNK

    def test(self, p, c, st, a, b):
        if p in ('ult', 'ule', 'ugt', 'uge'):
            x, y = st.aff.const(a), st.aff.const(b)
            if x is not None and y is not None:
                x, y = x % 2 ** 64, y % 2 ** 64
                c = x - y
        return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[p if p in ('eq', 'ne') else p[1:]]

    def length(self, st, p, d, n):
        t = st.text
        if len(n) != 1 or t is None or n[0] != ('N', t.ver) or d.t[n[0]] not in (1, -1):
            raise Unsupported('lengths')
        k = d.t[n[0]]
        rest = Lin(d.c, {a: b for a, b in d.t.items() if a != n[0]})
        c = st.aff.const(rest)
        if c is not None and not t.started and t.left == 3 and (p in ('eq', 'ne')):
            if t.nval is not None:
                return Lin(int(self.test(p, k * t.nval + c, st, Lin(), Lin())))
            if -k * c >= 2 or t.pend is None and -k * c == 0 and False:
                return ('len', int(-k * c), p == 'eq')
        # the length is what was taken and what is left
        c = st.aff.const(rest + V('P').scale(k))
        if c is None and t.started and st.aff.const(rest) == 0:
            # compared with the beginning: looked at again from there
            self.finish(st)
            self.begin(st, t.ver, t.props)
            t = st.text
            c = 0
        if c is None:
            raise Unsupported('length against a counter')
        if t.left == 3:
            self.split_left(st)
        got = set()
        for r in ((t.left,) if t.left < 2 else range(2, 8 + int(abs(c)))):
            x = k * r + c
            if p in ('ult', 'ule', 'ugt', 'uge') and not t.started and t.pend is None:
                # nothing taken: both sides are known numbers, of which one may be below zero
                nn = r
                lhs_has = k > 0
                other = -c if lhs_has else c
                a, b = (nn, other) if lhs_has else (other, nn)
                x = self._wrapdiff(d, n, k, nn, st, x)
            got.add(self.test(p, x, st, V('P'), Lin()) if p not in ('ult', 'ule', 'ugt', 'uge') else {'ult': x < 0, 'ule': x <= 0, 'ugt': x > 0, 'uge': x >= 0}[p])
        if len(got) != 1:
            raise Unsupported('length of the rest')
        return Lin(int(got.pop()))

    def _wrapdiff(self, d, n, k, nn, st, x):
        return x

    def i_select(self, st, i):
        r = []
        for s, c in self.cond(st, i['ops'][0] if 'ops' in i else i['c'], i):
            r.append((s, c))
        if len(r) == 1:
            st2, c = r[0]
            st.aff, st.text, st.same = st2.aff, st2.text, st2.same
            st.env[i['id']] = self.val(st, i['ops'][1 if c else 2])
            return None
        outs = []
        for s, c in r:
            # go on with the condition decided
            o = i['ops'][0]
            if o.get('k') == 'v':
                s.env[o['v']] = Lin(int(c))
            outs.append(s)
        raise Fork(outs)

    def i_freeze(self, st, i):
        st.env[i['id']] = self.val(st, i['ops'][0])

    def cast(self, st, i):
        v = self.val(st, i['ops'][0])
        if isinstance(v, Lin) and i['ty'] in ('i1', 'i8') and v.isconst():
            v = Lin(int(v.c) & (1 if i['ty'] == 'i1' else 255))
        if isinstance(v, tuple) and v[0] == 'cmp' and i['op'] == 'trunc':
            pass
        st.env[i['id']] = v

    i_sext = i_zext = i_trunc = i_bitcast = cast

    def decide(self, st, v, o):
        """a truth value as a number: fork when it is not known"""
        if isinstance(v, tuple) and v[0] in ('cmp', 'len') or isinstance(v, tuple) and v[0] == 'unk' and v[1] is not None:
            if o.get('k') != 'v':
                raise Unsupported('truth value')
            outs = []
            for s, c in self.cond(st, o, None):
                s.env[o['v']] = Lin(int(c))
                outs.append(s)
            raise Fork(outs)
        return v

    def arith(self, st, i):
        a, b = (self.val(st, o) for o in i['ops'])
        op = i['op']
        r = UNK
        if op in ('xor', 'and', 'or') and i['ty'] in ('i1', 'i8', 'i32'):
            a = self.decide(st, a, i['ops'][0])
            b = self.decide(st, b, i['ops'][1])
            ca, cb = self.const(st, a), self.const(st, b)
            if ca is not None and cb is not None:
                r = Lin({'xor': ca ^ cb, 'and': ca & cb, 'or': ca | cb}[op])
            elif op == 'and' and 0 in (ca, cb):
                r = Lin(0)
            elif op == 'or' and i['ty'] == 'i1' and 1 in (ca, cb):
                r = Lin(1)
        elif isinstance(a, Lin) and isinstance(b, Lin):
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op in ('mul', 'shl'):
                ca, cb = self.const(st, a), self.const(st, b)
                if op == 'shl' and cb is not None:
                    r = a.scale(2 ** cb)
                elif op == 'mul' and cb is not None:
                    r = a.scale(cb)
                elif op == 'mul' and ca is not None:
                    r = b.scale(ca)
        st.env[i['id']] = r

    i_add = i_sub = i_mul = i_shl = i_xor = i_and = i_or = arith

    def i_ptrtoint(self, st, i):
        st.env[i['id']] = self.val(st, i['ops'][0])

    def i_getelementptr(self, st, i):
        b = self.val(st, i['b'])
        if not (isinstance(b, tuple) and b[0] == 'ptr') or not i.get('ok', True):
            st.env[i['id']] = UNK
            return
        o = b[2] + Lin(i['off'])
        for v, s in i['vars']:
            x = self.val(st, v)
            if not isinstance(x, Lin):
                st.env[i['id']] = UNK
                return
            o = o + x.scale(s)
        st.env[i['id']] = ('ptr', b[1], o)

    def local(self, st, p, size, ins):
        """offset into a local, checked; None when it is not a local"""
        if not (isinstance(p, tuple) and p[0] == 'ptr'):
            return None
        if p[1] not in self.cells:
            return None
        o = self.const(st, p[2])
        if o is None:
            raise Unsupported('offset %r' % p[2])
        ok = 0 <= o and o + size <= self.cells[p[1]]
        self.report(self.hooks.BOUNDS, ok, '%d bytes at offset %d of a local of %d bytes' % (size, o, self.cells[p[1]]), st, ins)
        if not ok:
            raise Fork([])
        return o

    def i_load(self, st, i):
        p = self.val(st, i['ops'][0])
        n = i['tysz']
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] == 'chars':
            if n != 1:
                raise Unsupported('several characters at once')
            st.env[i['id']] = self.load_text(st, p, i)
            return
        o = self.local(st, p, n, i)
        r = UNK
        if o is not None:
            c = st.mem.get((p[1], o))
            if c is not None and c[0] == n:
                r = c[1]
            elif c is None and self.covered(st, p[1], o, n):
                r = Lin(0)
        st.env[i['id']] = r

    def covered(self, st, b, o, n):
        if any(k[0] == b and k[1] < o + n and k[1] + s > o for k, (s, v) in st.mem.items()):
            return False
        return any(x <= o and o + n <= y for x, y in st.zero.get(b, ()))

    def i_store(self, st, i):
        v, p = self.val(st, i['ops'][0]), self.val(st, i['ops'][1])
        n = i['vtysz']
        if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] == 'chars':
            raise Unsupported('text written')
        o = self.local(st, p, n, i)
        if o is None:
            if not (isinstance(p, tuple) and p[0] == 'ptr'):
                raise Unsupported('store to an address not followed')
            return
        for k in [k for k, (s, _) in st.mem.items() if k[0] == p[1] and k[1] < o + n and k[1] + s > o]:
            del st.mem[k]
        st.mem[(p[1], o)] = (n, self.decide(st, v, i['ops'][0]))

    def i_ret(self, st, i):
        if st.text is not None:
            pass
        self.hooks.ret(self, st, i)
        return []

    def i_unreachable(self, st, i):
        return []

    def i_call(self, st, i):
        a = [self.val(st, o) for o in i['args']]
        dn = i.get('dn', i.get('fn', ''))
        if dn == 'vf_error_path':
            self.refused(st, i)
            return []
        if dn.startswith('llvm.memset'):
            n = self.const(st, a[2])
            o = self.local(st, a[0], n or 0, i)
            if o is None or n is None or self.const(st, a[1]) != 0:
                raise Unsupported('memset')
            for k in [k for k, (s, _) in st.mem.items() if k[0] == a[0][1] and k[1] < o + n and k[1] + s > o]:
                del st.mem[k]
            st.zero.setdefault(a[0][1], set()).add((o, o + n))
            return None
        if dn.startswith('llvm.'):
            st.env[i['id']] = UNK
            return None
        for rx, h in self.hooks.handlers():
            if re.search(rx, dn):
                r = h(self, st, i, a)
                st.env[i['id']] = UNK if r is None else r
                return None
        raise Unsupported('call of %s' % dn[:120])

    def refused(self, st, i):
        t = st.text
        if st.taint or t is None or t.spec is None or not (t.started or t.pend is not None):
            return
        if t.pend is not None:
            self.consume(st)
        if t.left == 3:
            self.split_left(st)
        bad = self.spec.viable(t.spec) if t.left else self.spec.complete(t.spec)
        self.report(self.hooks.REFUSED, not bad, 'a text is refused that so far is well-formed', st, i)

    def fresh_content(self, st, p, props):
        st.nver += 1
        st.strs[(p[1], repr(p[2]))] = (st.nver, props)
        return st.nver
