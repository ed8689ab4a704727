"""Abstract interpreter over the JSON form of LLVM IR produced by tools/lvir.

Abstract domain (trace-partitioned):
  * integers, pointers and reals: polynomials over atoms (terms.py); a pointer is base + byte offset;
  * path knowledge: a conjunction of linear constraints over those polynomials (facts.py);
  * memory: a log of abstract writes; a read walks it backwards, deciding overlap with the constraints;
  * loops: summarised to closed form (every phi affine in the iteration number; the writes of all iterations become
    one range record that is inverted on demand), never unrolled.  Loops with other phis are handled by inductive
    invariants (loop_generic).
Nothing is executed and no path is given to a constraint solver: entailment is decided inside the linear domain.
"""
import os
import re
from fractions import Fraction
from .terms import *
from .terms import _norm
from . import terms
from .facts import Facts


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Unsupported(Exception):
    pass


class Dead(Exception):
    """the current path cannot continue (error path or infeasible)"""


BOT = object()


class Rec:
    __slots__ = ('kind', 'base', 'off', 'size', 'val', 'loop', 'n', 'events', 'kappa', 'extra')

    def __init__(self, kind, **kw):
        self.kind = kind
        for k in ('base', 'off', 'size', 'val', 'loop', 'n', 'events', 'kappa', 'extra'):
            setattr(self, k, kw.get(k))

    def __repr__(self):
        if self.kind == 'w':
            return 'W(%s+%s:%s=%s)' % (Atom.byid[self.base].name, self.off, self.size, self.val)
        if self.kind == 'loop':
            return 'L(%s<%s: %s)' % (self.kappa, self.n, self.events)
        return '%s(%s,%s,%s,%s)' % (self.kind, self.base and Atom.byid[self.base].name, self.off, self.size, self.val)


class Ev:
    """one write of a loop body"""
    __slots__ = ('seq', 'guards', 'base', 'off', 'size', 'val', 'rec')

    def __init__(self, seq, guards, base, off, size, val, rec=None):
        self.seq, self.guards, self.base, self.off, self.size, self.val, self.rec = seq, guards, base, off, size, val, rec

    def __repr__(self):
        return '{%s %s+%s:%s=%s if %s}' % (self.seq, self.base and Atom.byid[self.base].name, self.off, self.size, self.val, self.guards)

    def key(self):
        return (self.seq, tuple(self.guards), self.base, self.off, self.size, self.val)


class State:
    def __init__(self):
        self.env = {}
        self.facts = Facts()
        self.log = []
        self.events = []
        self.trail = []
        self.quants = []
        self.info = {}
        self.loopctx = None   # (kappa poly, loop id, seq counter) while inside a loop body pass

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.facts = self.facts.copy()
        s.log = list(self.log)
        s.events = list(self.events)
        s.trail = list(self.trail)
        s.quants = list(self.quants)
        s.info = dict(self.info)
        s.loopctx = self.loopctx
        return s

    def snap(self):
        return (len(self.log), len(self.events), len(self.trail), len(self.quants), dict(self.info), self.loopctx)

    def restore(self, sn):
        del self.log[sn[0]:], self.events[sn[1]:], self.trail[sn[2]:], self.quants[sn[3]:]
        self.info = sn[4]
        self.loopctx = sn[5]

    def decide(self, f):
        if f.op == 'const':
            return f.a
        if self.facts.proves(f):
            return True
        if self.facts.proves(neg(f)):
            return False
        raise Fork(f)

    def tri(self, f):
        if f.op == 'const':
            return f.a
        if self.facts.proves(f):
            return True
        if self.facts.proves(neg(f)):
            return False
        return None


REPO = os.environ.get('VF_REPO', '/repo').rstrip('/') + '/'


def short(loc):
    """[[file,line,fn],...] innermost first -> text naming the construct in /repo"""
    if not loc:
        return '?'
    best = None
    for f, l, fn in loc:
        if REPO + 'src/' in f or f.startswith('src/'):
            best = (f, l, fn)
            break
    if best is None:
        best = loc[0]
    return '%s:%d' % (best[0].replace(REPO, ''), best[1]) + (' (%s)' % best[2] if best[2] else '')


class Function:
    def __init__(self, js):
        self.js = js
        self.name = js['name']
        self.dn = js['dn']
        self.blocks = {b['id']: b for b in js['blocks']}
        self.order = {b['id']: i for i, b in enumerate(js['blocks'])}
        self.entry = js['blocks'][0]['id']
        self.loops = {l['header']: l for l in js['loops']}
        for l in self.loops.values():
            l['set'] = set(l['blocks'])
        self.inst = {}
        for b in js['blocks']:
            for i in b['insts']:
                self.inst[i['id']] = i
            # after a call that does not return
            if b['insts'][-1]['op'] == 'unreachable' and len(b['insts']) > 1 and b['insts'][-2]['op'] in ('call', 'invoke'):
                b['insts'][-1]['aftercall'] = True


class Module:
    def __init__(self, js):
        self.fns = {f['name']: Function(f) for f in js['functions']}
        self.globals = {g['name']: g for g in js['globals']}


class Interp:
    MAXSTATES = 4000
    MAXSTEPS = 400000

    def __init__(self, module, handlers=(), reporter=None, pure=None, opts=None):
        self.m = module
        self.handlers = [(re.compile(r), h) for r, h in handlers]
        self.hcache = {}
        self.rep = reporter
        self.pure = re.compile(pure) if pure else None
        self.opts = opts or {}
        self.assumed = set()
        self.steps = 0
        self.loopstats = {'closed': 0, 'generic': 0}
        self.silent = 0      # >0: do not report (first pass over a loop body)
        self.loopcounter = 0
        self.gbodies = []  # one generic iteration of each loop summarised by invariants
        self.bodies = []  # one iteration of each closed-form loop, in terms of what it reads
        self.loop_errors = []
        self.pending = []    # ways a loop body ends other than by leaving the loop or going round

    # ---------------------------------------------------------------- values
    def val(self, st, o):
        k = o['k']
        if k == 'v':
            return st.env[o['v']]
        if k == 'int':
            if o['w'] == 1:
                return TRUE if o['i'] not in ('0',) else FALSE
            return const(int(o['i']))
        if k == 'fp':
            return const(_norm(Fraction(float.fromhex(o['f'])))) if 'inf' not in o['f'] and 'nan' not in o['f'] else Poly.of(atom('sym', 'fp:' + o['f']))
        if k == 'null':
            return const(0)
        if k == 'zero':
            return const(0)
        if k == 'undef':
            return Poly.of(fresh('undef'))
        if k == 'glob':
            return Poly.of(atom('base', '@' + o['g']))
        if k == 'cgep':
            return self.val(st, o['b']) + o['off']
        if k == 'ccast':
            return self.val(st, o['b'])
        if k in ('agg', 'seq'):
            return ('agg', {i: self.val(st, e) for i, e in enumerate(o['e'])})
        raise Unsupported('operand ' + k)

    def base_of(self, p):
        """-> (base atom id or None, offset poly)"""
        if not isinstance(p, Poly):
            raise Unsupported('pointer value %r' % (p,))
        b = None
        for m, c in p.t.items():
            if len(m) == 1 and Atom.byid[m[0]].kind == 'base':
                if c != 1 or b is not None:
                    return None, p
                b = m[0]
            elif any(Atom.byid[x].kind == 'base' for x in m):
                return None, p
        if b is None:
            return None, p
        return b, p - Poly.of(Atom.byid[b])

    # ---------------------------------------------------------------- memory
    def write(self, st, p, size, val):
        b, off = self.base_of(p)
        if b is None:
            self.note_wild(st, p)
            return
        st.log.append(Rec('w', base=b, off=off, size=size, val=val))

    def note_wild(self, st, p):
        st.log.append(Rec('havoc', extra=fresh('hv')))

    def fill(self, st, p, size, val):
        b, off = self.base_of(p)
        if b is None:
            self.note_wild(st, p)
            return
        st.log.append(Rec('fill', base=b, off=off, size=Poly.const(size), val=val))

    def havoc(self, st, b):
        st.log.append(Rec('havoc', base=b, extra=fresh('hv')))

    def read(self, st, p, size, ty='i64', upto=None, t=None):
        b, off = self.base_of(p)
        if b is None:
            return self.unknown_read(st, p, ty)
        return self.query(st, b, off, size, ty, len(st.log) if upto is None else upto, t)

    def unknown_read(self, st, p, ty):
        return self.mkload('wild', p, ty)

    def mkload(self, tag, p, ty, size=None):
        if ty == 'ptr':
            a = atom('base', 'ld[%s](%r)' % (tag, p))
            Atom.addr[a.id] = p
            return Poly.of(a)
        a = atom('init', tag, p, ty)
        a.name = '%s[%r]' % (tag, p) if tag != '' else '*(%r)' % p
        if ty == 'i1' or ty == 'bool':
            return Formula('atom', a)
        return Poly.of(a)

    def initial(self, st, b, off, size, ty):
        at = Atom.byid[b]
        reg = st.info.get(('region', b))
        if reg is not None:
            for (lo, hi, fn) in reversed(reg):
                if st.facts.proves(ge(off, lo)) and st.facts.proves(le(off + size, hi)):
                    return fn(off)
                if st.facts.proves(le(off + size, lo)) or st.facts.proves(ge(off, hi)):
                    continue
                # partition on membership
                if st.decide(ge(off, lo)) and st.decide(lt(off, hi)):
                    return fn(off)
        if ty == 'elem':
            h = st.info.get(('heap', b))
            if h and h[2] != 'given':
                # storage fresh from the allocator holds nothing
                if st.decide(ge(off, 0)) and st.decide(le(off + size, h[1])):
                    return ('raw',)
                return ('unknown', 'outside the allocation of %r bytes' % h[1])
            if at.name.startswith('&'):
                return ('raw',)   # storage of a local object before its constructor ran
            return ('unknown', 'outside the declared storage')
        if at.name.startswith('@'):
            v = self.global_init(at.name[1:], off, size)
            if v is not None:
                return v
        p = Poly.of(at) + off
        if ty == 'ptr':
            a = atom('base', '*(%r)' % p)
            Atom.addr[a.id] = p
            return Poly.of(a)
        a = atom('init', '', p, ty)
        a.name = '*(%r)' % p
        return Poly.of(a)

    def global_init(self, name, off, size):
        g = self.m.globals.get(name)
        if not g or not g.get('const') or 'init' not in g or not off.isconst():
            return None

        def walk(o, at):
            if o['k'] in ('seq', 'agg'):
                n = len(o['e'])
                if 'o' in o:
                    for i in reversed(range(n)):
                        if at >= o['o'][i]:
                            return walk(o['e'][i], at - o['o'][i])
                es = o.get('es')
                if es is None:
                    es = g['size'] // n if n else 1
                return walk(o['e'][at // es], at % es)
            if o['k'] == 'int' and at == 0:
                return const(int(o['i']))
            if o['k'] == 'fp' and at == 0:
                return const(_norm(Fraction(float.fromhex(o['f']))))
            if o['k'] in ('null', 'zero'):
                return const(0)
            if o['k'] == 'glob' and at == 0:
                return Poly.of(atom('base', '@' + o['g']))
            return None
        try:
            return walk(g['init'], int(off.cval()))
        except (IndexError, KeyError):
            return None

    def query(self, st, b, off, size, ty, upto, t=None):
        """value of [b+off, b+off+size) as left by st.log[:upto].  t=(loop rec, kappa, seq): additionally only the part
        of that open loop record that precedes (kappa, seq)."""
        i = upto
        while i > 0:
            i -= 1
            r = st.log[i]
            if r.base is not None and r.base != b and r.kind != 'loop':
                continue
            if r.kind == 'w':
                d = off - r.off
                rel = self.overlap(st, d, size, r.size)
                if rel == 'out':
                    continue
                if rel == 'in':
                    v = r.val
                    if r.size == size and ((d.isconst() and d.cval() == 0) or st.facts.proves(eq(d, 0))):
                        return self.retype(v, ty)
                    if isinstance(v, Poly) and v.isconst() and v.cval() == 0:
                        return const(0)
                    if isinstance(v, tuple) and v[0] == 'agg' and d.isconst():
                        pass
                    return self.partial(st, b, off, ty)
                return self.partial(st, b, off, ty)
            elif r.kind == 'fill':
                d = off - r.off
                inside = conj(ge(d, 0), le(d + size, r.size))
                outside = disj(le(d + size, 0), ge(d, r.size))
                if st.tri(outside) is True:
                    continue
                if st.decide(ge(d, 0)) and st.decide(le(d + size, r.size)):
                    return self.retype(r.val(off) if callable(r.val) else r.val, ty)
                if st.decide(le(d + size, 0)) or st.decide(ge(d, r.size)):
                    continue
                return self.partial(st, b, off, ty)
            elif r.kind == 'cpy':
                d = off - r.off
                if st.tri(disj(le(d + size, 0), ge(d, r.size))) is True:
                    continue
                if st.decide(ge(d, 0)) and st.decide(le(d + size, r.size)):
                    sb, so = r.extra
                    return self.query(st, sb, so + d, size, ty, i if r.n is None else r.n)
                if st.decide(le(d + size, 0)) or st.decide(ge(d, r.size)):
                    continue
                return self.partial(st, b, off, ty)
            elif r.kind == 'havoc':
                if r.base is not None and r.base != b:
                    continue
                if r.base is None and Atom.byid[b].name.startswith('&'):
                    continue
                if r.size is not None:
                    d = off - r.off
                    if st.tri(disj(le(d + size, 0), ge(d, r.size))) is True:
                        continue
                if ty == 'elem':
                    return ('unknown', 'after an unmodelled write')
                p = Poly.of(Atom.byid[b]) + off
                if ty == 'ptr':
                    return Poly.of(atom('base', '*%s(%r)' % (r.extra.name, p)))
                return Poly.of(atom('init', r.extra.name, p, ty))
            elif r.kind == 'loop':
                v = self.query_loop(st, r, i, b, off, size, ty, t if (t and t[0] is r) else None)
                if v is not None:
                    return v
        return self.initial(st, b, off, size, ty)

    def retype(self, v, ty):
        return v

    def partial(self, st, b, off, ty):
        if ty == 'elem':
            return ('unknown', 'partially overlapping write')
        return Poly.of(fresh('part'))

    def overlap(self, st, d, size, rsize):
        if d.isconst():
            c = d.cval()
            if c + size <= 0 or c >= rsize:
                return 'out'
            if c >= 0 and c + size <= rsize:
                return 'in'
            return 'part'
        f = st.facts
        if f.proves(le(d + size, 0)) or f.proves(ge(d, rsize)):
            return 'out'
        if f.proves(ge(d, 0)) and f.proves(le(d + size, rsize)):
            return 'in'
        if size == rsize:
            # objects of one type in one buffer either coincide or are disjoint
            q = d.divexact(size)
            if q is not None and q.isint():
                return 'in' if st.decide(eq(d, 0)) else 'out'
        else:
            q = d.divexact(size)
            if q is not None and q.isint() and rsize % size == 0:
                if st.decide(ge(d, 0)) and st.decide(lt(d, rsize)):
                    return 'in'
                return 'out'
        if st.decide(le(d + size, 0)):
            return 'out'
        if st.decide(ge(d, rsize)):
            return 'out'
        return 'part'

    # the heart of the loop summary: which write of which iteration touched a slot last?
    def query_loop(self, st, r, idx, b, off, size, ty, t):
        cands = []
        for ev in r.events:
            if ev.rec is not None:
                if ev.base is None or ev.base == b:
                    # nested or unmodelled effect that may touch this object
                    if ev.rec == 'havoc':
                        touched = ev.base == b or not Atom.byid[b].name.startswith('&')
                    else:
                        touched = self.nested_may_touch(ev.rec, b)
                    if touched:
                        if ty == 'elem':
                            return ('unknown', 'written by a nested loop')
                        return Poly.of(atom('init', 'nested%s' % id(r), Poly.of(Atom.byid[b]) + off, ty))
                continue
            if ev.base != b:
                continue
            kx = self.solve_iter(st, r, ev, off, size)
            if kx is False:
                continue
            if kx == 'any':
                # the same cell every iteration: last iteration wins
                lim = (t[1] if t else r.n)
                cands.append((lim - 1, ev, 'last'))
                continue
            if kx is None:
                if ty == 'elem':
                    return ('unknown', 'written at an address the summary cannot invert')
                return Poly.of(fresh('inv'))
            cands.append((kx, ev, None))
        if not cands:
            return None
        live = []
        for kx, ev, tag in cands:
            mp = {r.kappa: kx}
            ok = st.decide(ge(kx, 0))
            if ok:
                if t:
                    # strictly before (kappa_t, seq_t)
                    kt, seqt = t[1], t[2]
                    if tag == 'last':
                        # this iteration's write if it precedes, else the previous iteration's
                        if ev.seq < seqt and not ev.guards:
                            kx = kt
                            mp = {r.kappa: kx}
                            ok = True
                        # else kx = kt-1 already
                    elif ev.seq < seqt:
                        ok = st.decide(le(kx, kt))
                    else:
                        ok = st.decide(lt(kx, kt))
                else:
                    ok = st.decide(lt(kx, r.n))
            if ok:
                for g in ev.guards:
                    if not st.decide(g.subst(mp)):
                        ok = False
                        break
            if ok:
                live.append((kx, ev))
        if not live:
            return None
        best = live[0]
        for kx, ev in live[1:]:
            d = kx - best[0]
            if ev.seq > best[1].seq:
                later = st.decide(ge(d, 0))
            else:
                later = st.decide(gt(d, 0))
            if later:
                best = (kx, ev)
        kx, ev = best
        return self.loop_value(st, r, idx, ev, kx, ty)

    def nested_may_touch(self, rec, b):
        for e in rec.events:
            if e.rec is not None:
                if e.rec == 'havoc':
                    if e.base == b or e.base is None and not Atom.byid[b].name.startswith('&'):
                        return True
                elif self.nested_may_touch(e.rec, b):
                    return True
            elif e.base == b:
                return True
        return False

    def solve_iter(self, st, r, ev, off, size):
        """iteration at which ev touches off: Poly, False (never), 'any', or None (cannot tell)"""
        co = ev.off.coef_of(r.kappa)
        if co is None:
            return None
        k, rest = co
        d = off - rest
        if not k.t:
            rel = self.overlap(st, d, size, ev.size)
            return False if rel == 'out' else ('any' if rel == 'in' else None)
        q = d.divexact(k)
        if q is not None and q.isint():
            return q
        if k.isconst():
            kk = abs(k.cval())
            # different residue class?
            if kk >= size and ev.size <= kk:
                dd = d
                c = dd.cval()
                restp = dd - c
                qq = restp.divexact(kk) if restp.t else Poly.const(0)
                if qq is not None and qq.isint():
                    rem = c % kk
                    if rem >= ev.size or rem + size <= 0:
                        return False
        # idx not an explicit multiple: unknown
        return None

    def loop_value(self, st, r, idx, ev, kx, ty):
        mp = {r.kappa: kx}
        return self.resolve_val(st, r, idx, ev, kx, ev.val, mp, ty)

    def resolve_val(self, st, r, idx, ev, kx, v, mp, ty):
        if isinstance(v, tuple):
            if v and v[0] == 'at':
                # element content at (base, off) just before this write in the same iteration
                _, b, off, seq = v
                depth = st.info.get('depth', 0)
                if depth > 6:
                    return ('unknown', 'an element that depends on earlier iterations of the same loop')
                st.info['depth'] = depth + 1
                try:
                    return self.query(st, b, off.subst(mp), ev.size, 'elem', idx + 1, (r, kx, seq))
                finally:
                    st.info['depth'] = depth
            return tuple(self.resolve_val(st, r, idx, ev, kx, x, mp, ty) for x in v)
        if isinstance(v, Poly):
            v = v.subst(mp)
            return self.resolve_lreads(st, r, idx, kx, v)
        if isinstance(v, Formula):
            return v.subst(mp)
        return v

    def resolve_lreads(self, st, r, idx, kx, v):
        mp2 = {}
        for a in v.atoms():
            at = Atom.byid[a]
            if at.kind == 'lread' and at.args[0] == r.loop:
                _, b, off, size, ty, seq = at.args
                depth = st.info.get('depth', 0)
                if depth > 4:
                    continue
                st.info['depth'] = depth + 1
                try:
                    mp2[a] = self.query(st, b, off, size, ty, idx + 1, (r, kx, seq))
                finally:
                    st.info['depth'] = depth
        return v.subst(mp2) if mp2 else v

    # ---------------------------------------------------------------- running
    def run(self, fname, setup=None):
        fn = self.m.fns[fname]
        st = State()
        for a in fn.js['args']:
            if a['ty'] == 'ptr':
                st.env[a['id']] = Poly.of(atom('base', a['name'] or 'arg%d' % a['id']))
            elif a['ty'] == 'i1':
                st.env[a['id']] = batom('sym', a['name'])
            else:
                st.env[a['id']] = sym(a['name'] or 'arg%d' % a['id'])
        self.fn = fn
        if setup:
            setup(self, st, {a['name']: st.env[a['id']] for a in fn.js['args']})
        self.alloca_size = {}
        self.goal = self.opts['goal'](self, fname) if self.opts.get('goal') else None
        outs = self.explore(fn, [(st, fn.entry, None)])
        return [(k, s, v) for (k, s, v) in outs]

    def target_loc(self, st):
        """where the analysed operation lives: the last repository location seen on this path"""
        return st.info.get("target") or self.fn.dn

    def explore(self, fn, work, stop=()):
        """run the work list until return or until a block of `stop` is entered; -> list of (kind, state, value)"""
        out = []
        n = 0
        work = list(work)
        goal = self.goal
        while work:
            st, blk, pred = work.pop()
            n += 1
            if n > self.opts.get("maxstates", self.MAXSTATES):
                raise Unsupported('too many partitions in ' + fn.dn)
            if blk in stop:
                out.append(('stop', st, (blk, pred)))
                continue
            if goal is not None and goal(st):
                # everything asked about this path is already settled
                out.append(('ret', st, None))
                continue
            if blk in fn.loops and self.opts.get('header'):
                try:
                    st = self.opts['header'](self, fn, st, blk, pred)
                except Fork as fk:
                    work.extend((s, blk, pred) for s in self.fork(st, fk.cond))
                    continue
                if st is not None:
                    self.run_block(fn, st, blk, pred, work, out, phis=False)
                continue
            if blk in fn.loops and not self.opts.get('concrete'):
                keep, self.pending = self.pending, []
                work.extend(self.loop(fn, st, blk, pred))
                out += self.pending
                self.pending = keep
                continue
            self.run_block(fn, st, blk, pred, work, out)
        return out

    def enter(self, st, fname, args):
        """interpret a call of a function of the module; -> list of (kind, state, value)"""
        f = self.m.fns[fname]
        saved, goal, self.goal = st.env, self.goal, None
        s = st.copy()
        s.env = {a['id']: v for a, v in zip(f.js['args'], args)}
        res = self.explore(f, [(s, f.entry, None)])
        self.goal = goal
        for _, t, _ in res:
            t.env = dict(saved)
        return res

    def fork(self, st, f):
        res = []
        for g in (f, neg(f)):
            s = st.copy()
            s.facts.add(g)
            if s.facts.dead or s.facts.contradictory():
                continue
            res.append(s)
        return res

    def run_block(self, fn, st, blk, pred, work, out, start=0, phis=True):
        insts = fn.blocks[blk]['insts']
        stack = [(st, start, phis)]
        while stack:
            st, i, phis = stack.pop()
            try:
                if i == 0 and phis:
                    # parallel phi assignment
                    new = {}
                    for ins in insts:
                        if ins['op'] != 'phi':
                            break
                        for v, b in ins['in']:
                            if b == pred:
                                new[ins['id']] = self.val(st, v)
                                break
                    st.env.update(new)
                done = False
                while i < len(insts):
                    ins = insts[i]
                    if ins['op'] == 'phi':
                        i += 1
                        continue
                    self.steps += 1
                    if self.steps > self.MAXSTEPS:
                        raise Unsupported('step budget exhausted in ' + fn.dn)
                    sn = st.snap()
                    try:
                        r = self.step(fn, st, ins, blk)
                    except Fork as fk:
                        st.restore(sn)
                        for s in self.fork(st, fk.cond):
                            s.trail.append((short(ins.get('loc')), None))
                            stack.append((s, i, False))
                        done = True
                        break
                    except Dead:
                        done = True
                        break
                    if r is not None:
                        kind, v = r
                        if kind == 'goto':
                            for s, b in v:
                                work.append((s, b, blk))
                        elif kind == 'states':
                            # the call continues in each of the given states
                            for s, x in v:
                                if x is not None:
                                    s.env[ins['id']] = x
                                stack.append((s, i + 1, False))
                        else:
                            out.append((kind, st, v))
                        done = True
                        break
                    i += 1
            except Fork as fk:   # in phi evaluation: not expected
                raise Unsupported('fork in phi')

    # ---------------------------------------------------------------- instructions
    def asbool(self, st, v):
        if isinstance(v, Formula):
            return v
        if isinstance(v, Poly):
            if v.isconst():
                return TRUE if v.cval() else FALSE
            return ne(v, 0)
        raise Unsupported('boolean %r' % (v,))

    def asint(self, st, v):
        if isinstance(v, Formula):
            return const(1) if st.decide(v) else const(0)
        return v

    def step(self, fn, st, ins, blk):
        op = ins['op']
        m = getattr(self, 'op_' + op, None)
        if m is None:
            raise Unsupported('instruction %s at %s' % (op, short(ins.get('loc'))))
        return m(fn, st, ins)

    def _bin(self, st, ins):
        a, b = (self.val(st, o) for o in ins['ops'])
        return a, b

    def op_add(self, fn, st, ins):
        a, b = self._bin(st, ins)
        st.env[ins['id']] = self.asint(st, a) + self.asint(st, b)

    def op_sub(self, fn, st, ins):
        a, b = self._bin(st, ins)
        st.env[ins['id']] = self.asint(st, a) - self.asint(st, b)

    def op_mul(self, fn, st, ins):
        a, b = self._bin(st, ins)
        st.env[ins['id']] = self.asint(st, a) * self.asint(st, b)

    op_fadd, op_fsub, op_fmul = op_add, op_sub, op_mul

    def op_fneg(self, fn, st, ins):
        st.env[ins['id']] = -self.val(st, ins['ops'][0])

    def op_fdiv(self, fn, st, ins):
        a, b = self._bin(st, ins)
        st.env[ins['id']] = a * inverse(b)

    def op_sdiv(self, fn, st, ins):
        a, b = self._bin(st, ins)
        a, b = self.asint(st, a), self.asint(st, b)
        if not b.isconst() and not self.silent:
            # a quotient that is whole and not zero has a divisor that is not zero
            good = st.facts.proves(ne(b, 0)) or a.divexact(b) is not None and st.facts.proves(ne(a, 0))
            self.rep.check(good, 'no division by zero', 'the divisor %s may be zero' % b, short(ins.get('loc')))
        st.env[ins['id']] = self.div(st, a, b)

    op_udiv = op_sdiv

    def div(self, st, a, b):
        if not b.isconst() and not a.isconst():
            q = a.divexact(b)
            if q is not None and q.isint() and (st.facts.proves(ne(a, 0)) or st.facts.proves(ne(b, 0))):
                return q
        return idiv(a, b)

    def op_srem(self, fn, st, ins):
        a, b = self._bin(st, ins)
        st.env[ins['id']] = a - b * idiv(a, b)

    op_urem = op_srem

    def op_shl(self, fn, st, ins):
        a, b = self._bin(st, ins)
        if b.isconst():
            st.env[ins['id']] = self.asint(st, a) * (2 ** int(b.cval()))
        else:
            st.env[ins['id']] = Poly.of(atom('shl', a, b))

    def op_lshr(self, fn, st, ins):
        a, b = self._bin(st, ins)
        ml = self.multiload(st, a) if b.isconst() and b.cval() == 32 else None
        if ml:
            f = fresh('part')
            st.info[('mload', f.id)] = (ml[0], ml[1] + 4, ml[2])
            st.env[ins['id']] = Poly.of(f)
        elif b.isconst():
            st.env[ins['id']] = idiv(self.asint(st, a), const(2 ** int(b.cval())))
        else:
            st.env[ins['id']] = Poly.of(atom(ins['op'], a, b))

    op_ashr = op_lshr

    def _logic(self, fn, st, ins):
        a, b = self._bin(st, ins)
        if ins['ty'] == 'i1':
            a, b = self.asbool(st, a), self.asbool(st, b)
            if ins['op'] == 'and':
                v = conj(a, b)
            elif ins['op'] == 'or':
                v = disj(a, b)
            else:
                if b.op == 'const':
                    v = neg(a) if b.a else a
                elif a.op == 'const':
                    v = neg(b) if a.a else b
                else:
                    v = disj(conj(a, neg(b)), conj(neg(a), b))
            st.env[ins['id']] = v
            return
        a, b = self.asint(st, a), self.asint(st, b)
        if a.isconst() and b.isconst():
            x, y = int(a.cval()), int(b.cval())
            st.env[ins['id']] = const(x & y if ins['op'] == 'and' else x | y if ins['op'] == 'or' else x ^ y)
            return
        if ins['op'] == 'xor' and b.isconst() and b.cval() == -1:
            st.env[ins['id']] = -a - 1
            return
        st.env[ins['id']] = Poly.of(atom(ins['op'], a, b))

    op_and = op_or = op_xor = _logic

    def op_icmp(self, fn, st, ins):
        a, b = self._bin(st, ins)
        pred = ins['pred']
        if ins['oty'] == 'i1' or isinstance(a, Formula) or isinstance(b, Formula):
            a, b = self.asbool(st, a), self.asbool(st, b)
            if pred in ('eq', 'ne'):
                if b.op == 'const':
                    v = a if b.a else neg(a)
                elif a.op == 'const':
                    v = b if a.a else neg(b)
                else:
                    v = disj(conj(a, b), conj(neg(a), neg(b)))
                st.env[ins['id']] = v if pred == 'eq' else neg(v)
                return
            a, b = self.asint(st, a), self.asint(st, b)
        st.env[ins['id']] = self.compare(st, pred, a, b, ins['oty'])

    def compare(self, st, pred, a, b, ty):
        if ty == 'ptr':
            ba, oa = self.base_of(a)
            bb, ob = self.base_of(b)
            if ba is not None and bb is not None and ba != bb and pred in ('eq', 'ne'):
                return TRUE if pred == 'ne' else FALSE
            if ba is not None and bb is None and b.isconst() and b.cval() == 0 and pred in ('eq', 'ne'):
                nm = Atom.byid[ba].name
                if nm[0] in '&@^' or oa.t:
                    return TRUE if pred == 'ne' else FALSE
                return (ne if pred == 'ne' else eq)(a, 0)
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return ne(a, b)
        if pred[0] == 'u' and ty != 'ptr':
            fa, fb = st.facts.proves(ge(a, 0)), st.facts.proves(ge(b, 0))
            if fb and not fa and not a.isconst() and pred in ('ult', 'ule') and self.opts.get('wrap', True):
                base = lt(a, b) if pred == 'ult' else le(a, b)
                return conj(ge(a, 0), base)
            if fa and not fb and not b.isconst() and pred in ('ugt', 'uge') and self.opts.get('wrap', True):
                base = gt(a, b) if pred == 'ugt' else ge(a, b)
                return conj(ge(b, 0), base)
            if not (fa and fb):
                self.assumed.add('operands of unsigned comparisons are not negative')
        p = pred[1:]
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[p](a, b)

    def op_fcmp(self, fn, st, ins):
        a, b = self._bin(st, ins)
        pred = ins['pred']
        if pred in ('true', 'false'):
            st.env[ins['id']] = TRUE if pred == 'true' else FALSE
            return
        if pred in ('ord', 'uno'):
            st.env[ins['id']] = TRUE if pred == 'ord' else FALSE
            return
        st.env[ins['id']] = self.fcompare(pred, a, b)

    def fcompare(self, pred, a, b):
        # reals, NaN aside: normalise to  d < 0, d <= 0, d == 0
        p = pred[1:]
        if p in ('gt', 'ge'):
            a, b = b, a
            p = {'gt': 'lt', 'ge': 'le'}[p]
        d = a - b
        if d.isconst():
            v = d.cval()
            return TRUE if {'lt': v < 0, 'le': v <= 0, 'eq': v == 0, 'ne': v != 0}[p] else FALSE
        if p == 'le':   # d <= 0  ==  !(-d < 0)
            return neg(batom('flt0', -d))
        if p == 'lt':
            return batom('flt0', d)
        if d.t[max(d.t)] < 0:
            d = -d
        f = batom('feq0', d)
        return f if p == 'eq' else neg(f)

    def op_select(self, fn, st, ins):
        c, a, b = (self.val(st, o) for o in ins['ops'])
        c = self.asbool(st, c)
        if ins['ty'] == 'i1':
            a, b = self.asbool(st, a), self.asbool(st, b)
            st.env[ins['id']] = disj(conj(c, a), conj(neg(c), b)) if not (b.op == 'const' or a.op == 'const') else (
                conj(c, a) if b.op == 'const' and not b.a else disj(c, b) if a.op == 'const' and a.a else
                disj(neg(c), a) if b.op == 'const' else conj(neg(c), b))
            return
        if a == b:
            st.env[ins['id']] = a
            return
        if self.opts.get('selects') and c.op != 'const' and ins['ty'] in ('double', 'float'):
            st.env[ins['id']] = rebuild('select', (c, a, b))
            return
        st.env[ins['id']] = a if st.decide(c) else b

    def _cast(self, fn, st, ins):
        v = self.val(st, ins['ops'][0])
        if ins['op'] == 'trunc' and ins['ty'] == 'i32':
            ml = self.multiload(st, v)
            if ml:
                v = self.query(st, ml[0], ml[1], 4, 'i32', ml[2])
        if ins['op'] == 'trunc' and ins['ty'] == 'i1':
            if isinstance(v, Formula):
                st.env[ins['id']] = v
            elif v.isconst():
                st.env[ins['id']] = TRUE if int(v.cval()) & 1 else FALSE
            else:
                st.env[ins['id']] = ne(v, 0)   # C++ bool in memory is 0 or 1
            return
        if ins['op'] in ('zext', 'uitofp') and isinstance(v, Formula):
            if self.opts.get('lazybool'):
                st.env[ins['id']] = v
                return
            v = const(1) if st.decide(v) else const(0)
        elif ins['op'] in ('sext', 'sitofp') and isinstance(v, Formula):
            v = const(-1) if st.decide(v) else const(0)
        if ins['op'] == 'trunc' and ins['ty'] == 'i32' and self.opts.get('narrow') and isinstance(v, Poly) and not v.isconst() and not (st.facts.proves(ge(v, -2**31)) and st.facts.proves(lt(v, 2**31))):
            # it may not fit
            v = Poly.of(fresh('narrowed'))
        st.env[ins['id']] = v

    op_trunc = op_zext = op_sext = op_bitcast = op_ptrtoint = op_inttoptr = op_fpext = op_fptrunc = op_sitofp = op_uitofp = op_freeze = _cast

    def op_fptosi(self, fn, st, ins):
        v = self.val(st, ins['ops'][0])
        if v.isconst():
            st.env[ins['id']] = const(int(v.cval()))
        else:
            st.env[ins['id']] = Poly.of(atom('fptoi', v))

    op_fptoui = op_fptosi

    def op_getelementptr(self, fn, st, ins):
        if not ins['ok']:
            raise Unsupported('gep')
        p = self.val(st, ins['b']) + ins['off']
        for v, s in ins['vars']:
            p = p + self.asint(st, self.val(st, v)) * s
        st.env[ins['id']] = p

    def op_alloca(self, fn, st, ins):
        a = atom('base', '&%s.%s.%d' % (fn.name[:30], ins['name'] or 'tmp', ins['id']))
        st.env[ins['id']] = Poly.of(a)
        n = ins['ops'][0]
        if n['k'] == 'int' and 'asz' in ins:
            self.alloca_size[a.id] = ins['asz'] * int(n['i'])

    def op_load(self, fn, st, ins):
        p = self.val(st, ins['ops'][0])
        if ins['ty'].startswith('{') or ins['ty'].startswith('['):
            raise Unsupported('aggregate load')
        v = self.mem_read(st, p, ins['tysz'], ins['ty'], ins)
        if isinstance(v, Poly) and not st.loopctx and len(v.t) == 1:
            m = next(iter(v.t))
            if len(m) == 1 and Atom.byid[m[0]].name.startswith('part#'):
                # several objects read as one: remember where from, so that storing it copies them
                b, off = self.base_of(p)
                if b is not None:
                    st.info[('mload', m[0])] = (b, off, len(st.log))
        st.env[ins['id']] = v

    def mem_read(self, st, p, size, ty, ins):
        self.on_access(st, p, size, False, ins)
        if st.loopctx:
            b, off = self.base_of(p)
            ctx = st.loopctx
            seq = self.next_seq(st)
            if b is not None:
                ctx['reads'].add(b)
                if b in ctx['defer']:
                    return Poly.of(atom('lread', ctx['id'], b, off, size, ty, seq))
        v = self.read(st, p, size, ty)
        h = self.opts.get('loaded')
        return h(self, st, p, size, ty, v, ins) if h else v

    def on_access(self, st, p, size, write, ins):
        h = self.opts.get('access')
        if h:
            h(self, st, p, size, write, ins)

    def next_seq(self, st):
        st.info['seq'] = st.info.get('seq', 0) + 1
        return st.info['seq']

    def op_store(self, fn, st, ins):
        v = self.val(st, ins['ops'][0])
        p = self.val(st, ins['ops'][1])
        self.on_access(st, p, ins['vtysz'], True, ins)
        h = self.opts.get('stored')
        if h:
            h(self, st, p, ins['vtysz'], v, ins)
        if isinstance(v, tuple) and v[0] == 'agg':
            raise Unsupported('aggregate store')
        if isinstance(v, Poly) and not st.loopctx and len(v.t) == 1:
            m = next(iter(v.t))
            src = st.info.get(('mload', m[0])) if len(m) == 1 and v.t[m] == 1 else None
            b, off = self.base_of(p)
            if src is not None and b is not None:
                st.log.append(Rec('cpy', base=b, off=off, size=const(ins['vtysz']), extra=src[:2], n=src[2]))
                return
        if ins['vtysz'] == 8 and ins['vty'] == 'i64' and ins['ops'][0]['k'] == 'v':
            ps = self.halves(fn, st, ins['ops'][0])
            if ps:
                for o, x in ps:
                    self.mem_write(st, p + o, 4, x)
                return
        self.mem_write(st, p, ins['vtysz'], v)

    def halves(self, fn, st, o):
        """two 32 bit values combined into one 64 bit store: [(0, low), (4, high)] or None"""
        d = fn.inst.get(o['v'])
        if d is None or d['op'] not in ('or', 'add'):
            return None
        lo = hi = None
        for x in d['ops']:
            if x['k'] == 'int':
                c = int(x['i'])
                if c % 2**32 == 0 and hi is None:
                    hi = const((c >> 32) - (2**32 if c >> 32 >= 2**31 else 0))
                    continue
                if 0 <= c < 2**31 and lo is None:
                    lo = const(c)
                    continue
                return None
            e = fn.inst.get(x.get('v'))
            if e is not None and e['op'] == 'and' and e['ops'][1]['k'] == 'int' and e['ops'][1]['i'] == '4294967295':
                e = fn.inst.get(e['ops'][0].get('v'))
            if e is None:
                return None
            if e['op'] == 'zext' and e.get('sty') == 'i32' and lo is None:
                lo = self.val(st, e['ops'][0])
            elif e['op'] == 'shl' and e['ops'][1]['k'] == 'int' and e['ops'][1]['i'] == '32' and hi is None:
                g = fn.inst.get(e['ops'][0].get('v'))
                if g is None or g['op'] not in ('zext', 'sext') or g.get('sty') != 'i32':
                    return None
                hi = self.val(st, g['ops'][0])
            else:
                return None
        if lo is None or hi is None:
            return None
        return [(0, lo), (4, hi)]

    def multiload(self, st, v):
        if isinstance(v, Poly) and len(v.t) == 1:
            m = next(iter(v.t))
            if len(m) == 1 and v.t[m] == 1:
                return st.info.get(('mload', m[0]))
        return None

    def mem_write(self, st, p, size, v):
        if st.loopctx:
            b, off = self.base_of(p)
            seq = self.next_seq(st)
            if b is None:
                self.lev(st, Ev(seq, None, None, None, None, None, rec='havoc'))
            else:
                self.lev(st, Ev(seq, None, b, off, size, v))
        self.write(st, p, size, v)

    def lev(self, st, ev):
        st.info['lev'] = st.info.get('lev', ()) + (ev,)

    def op_br(self, fn, st, ins):
        if 'c' not in ins:
            return 'goto', [(st, ins['succ'][0])]
        c = self.asbool(st, self.val(st, ins['c']))
        t = st.tri(c)
        if t is not None:
            return 'goto', [(st, ins['succ'][0 if t else 1])]
        # decompose or/and for precision
        raise_on = c
        while raise_on.op in ('and', 'or'):
            raise_on = raise_on.a if st.tri(raise_on.a) is None else raise_on.b
        if raise_on != c:
            raise Fork(raise_on)
        res = []
        for f, b in ((c, ins['succ'][0]), (neg(c), ins['succ'][1])):
            s = st.copy()
            s.facts.add(f)
            if s.facts.dead or s.facts.contradictory():
                continue
            s.trail.append((short(ins.get('loc')), f))
            res.append((s, b))
        return 'goto', res

    def op_switch(self, fn, st, ins):
        c = self.asint(st, self.val(st, ins['c']))
        res = []
        cur = st
        for v, b in ins['cases']:
            f = eq(c, v)
            t = cur.tri(f)
            if t is True:
                res.append((cur, b))
                return 'goto', res
            if t is False:
                continue
            s = cur.copy()
            s.facts.add(f)
            s.trail.append((short(ins.get('loc')), f))
            if not s.facts.contradictory():
                res.append((s, b))
            cur = cur.copy()
            cur.facts.add(neg(f))
        if not cur.facts.contradictory():
            res.append((cur, ins['def']))
        return 'goto', res

    def op_ret(self, fn, st, ins):
        return 'ret', (self.val(st, ins['ops'][0]) if ins['ops'] else None)

    def op_unreachable(self, fn, st, ins):
        return 'unreachable', ins

    def op_extractvalue(self, fn, st, ins):
        v = self.val(st, ins['ops'][0])
        for i in ins['idx']:
            if isinstance(v, tuple) and v[0] == 'agg':
                v = v[1].get(i)
                if v is None:
                    v = Poly.of(fresh('undef'))
            else:
                v = Poly.of(atom('extract', v, i)) if isinstance(v, Poly) else Poly.of(fresh('ext'))
        st.env[ins['id']] = v

    def op_insertvalue(self, fn, st, ins):
        v = self.val(st, ins['ops'][0])
        x = self.val(st, ins['ops'][1])
        d = dict(v[1]) if isinstance(v, tuple) and v[0] == 'agg' else {}
        if len(ins['idx']) != 1:
            raise Unsupported('nested insertvalue')
        d[ins['idx'][0]] = x
        st.env[ins['id']] = ('agg', d)

    # ---------------------------------------------------------------- calls
    def op_call(self, fn, st, ins):
        name = ins.get('fn')
        if name is None:
            h = self.opts.get('indirect')
            if h:
                return h(self, fn, st, ins, [self.val(st, a) for a in ins['args']])
            st.env[ins['id']] = self.result(st, ins)
            st.events.append(('call', '<indirect>', [self.val(st, a) for a in ins['args']], ins))
            return
        if name.startswith('llvm.'):
            for r, f in self.handlers:
                if 'llvm' in r.pattern and r.search(name):
                    return f(self, fn, st, ins, [self.val(st, a) for a in ins['args']])
            return self.intrinsic(fn, st, ins, name)
        if name == 'vf_error_path':
            kind = int(ins['args'][0]['i'])
            return 'error', (kind, ins)
        h = self.hcache.get(name, BOT)
        if h is BOT:
            h = None
            for r, f in self.handlers:
                if r.search(ins['dn']):
                    h = f
                    break
            self.hcache[name] = h
        args = [self.val(st, a) for a in ins['args']]
        if h is not None:
            return h(self, fn, st, ins, args)
        self.opaque(st, ins, args)

    def result(self, st, ins, tag=None):
        ty = ins['ty']
        if ty == 'void':
            return None
        if ty == 'ptr':
            return Poly.of(fresh((tag or '^' + (ins.get('dn') or 'icall').split('(')[0].split('::')[-1]), 'base'))
        if ty == 'i1':
            return Formula('atom', fresh(tag or 'b'))
        return Poly.of(fresh(tag or (ins.get('dn') or 'icall').split('(')[0].split('::')[-1]))

    def opaque(self, st, ins, args, event=True):
        if event:
            st.events.append(('call', ins['dn'], args, ins))
        if not (ins.get('readnone') or (self.pure and self.pure.search(ins['dn']))):
            for a in args:
                if isinstance(a, Poly):
                    b, off = self.base_of(a)
                    if b is not None:
                        self.havoc(st, b)
                        if st.loopctx:
                            st.info['lev'] = st.info.get('lev', ()) + (Ev(self.next_seq(st), None, b, None, None, None, rec='havoc'),)
        st.env[ins['id']] = self.result(st, ins)

    def intrinsic(self, fn, st, ins, name):
        args = [self.val(st, a) for a in ins['args']]
        n = name[5:]
        if n.startswith(('memcpy', 'memmove')):
            d, s, l = args[0], args[1], args[2]
            db, do = self.base_of(d)
            sb, so = self.base_of(s)
            if db is None:
                self.note_wild(st, d)
                return
            self.on_access(st, d, l, True, ins)
            self.on_access(st, s, l, False, ins)
            if st.loopctx:
                if l.isconst() and sb is not None and int(l.cval()) % 8 == 0 and l.cval() <= 64:
                    for o in range(0, int(l.cval()), 8):
                        v = self.mem_read(st, s + o, 8, 'i64', ins)
                        self.mem_write(st, d + o, 8, v)
                    return
                st.info['lev'] = st.info.get('lev', ()) + (Ev(self.next_seq(st), None, db, None, None, None, rec='havoc'),)
                self.havoc(st, db)
                return
            if sb is None:
                st.log.append(Rec('havoc', base=db, off=do, size=l, extra=fresh('hv')))
                return
            st.events.append(('memcpy', n, [d, s, l], ins))
            st.log.append(Rec('cpy', base=db, off=do, size=l, extra=(sb, so)))
            return
        if n.startswith('memset'):
            st.events.append(('memset', n, args, ins))
            self.on_access(st, args[0], args[2], True, ins)
            h = self.opts.get('memset')
            if h:
                return h(self, st, args, ins)
            if args[1].isconst() and args[1].cval() == 0:
                self.fill(st, args[0], args[2], const(0))
            else:
                b, off = self.base_of(args[0])
                if b is not None:
                    st.log.append(Rec('havoc', base=b, off=off, size=Poly.const(args[2]), extra=fresh('hv')))
            return
        if n.startswith(('smax', 'umax', 'smin', 'umin')):
            a, b = args
            c = st.decide(ge(a, b))
            st.env[ins['id']] = (a if c else b) if 'max' in n else (b if c else a)
            return
        if n.startswith('abs.'):
            st.env[ins['id']] = args[0] if st.decide(ge(args[0], 0)) else -args[0]
            return
        if n.startswith('fmuladd') or n.startswith('fma.'):
            st.env[ins['id']] = args[0] * args[1] + args[2]
            return
        if n.startswith('expect'):
            st.env[ins['id']] = args[0]
            return
        if n.startswith('assume'):
            f = self.asbool(st, args[0])
            st.facts.add(f)
            return
        if n.startswith('stacksave'):
            st.env[ins['id']] = const(0)
            return
        if n.startswith(('stackrestore', 'donothing', 'trap', 'eh.')):
            if ins['ty'] != 'void':
                st.env[ins['id']] = Poly.of(fresh('eh'))
            return
        if n.startswith('is.constant'):
            st.env[ins['id']] = FALSE
            return
        if n.startswith('objectsize'):
            st.env[ins['id']] = const(-1)
            return
        if ins['ty'] in ('double', 'float'):
            base = n.rsplit('.', 1)[0]
            st.env[ins['id']] = self.fpfun(st, base, args)
            return
        st.env[ins['id']] = self.result(st, ins, n.replace('.', '_'))
        return

    def fpfun(self, st, base, args):
        return Poly.of(atom('f', base, *args))

    # ---------------------------------------------------------------- loops
    def loop(self, fn, st, header, pred):
        """-> list of (state, block, pred) leaving the loop"""
        L = fn.loops[header]
        try:
            if self.opts.get('generic') and self.opts['generic'](self, fn, L, st):
                raise NotAffine('by invariants')
            r = self.loop_closed(fn, st, L, header, pred)
            self.loopstats['closed'] += 1
            return r
        except NotAffine as e:
            reason = str(e)
        if self.opts.get('strict_loops'):
            raise Unsupported('loop at %s: %s' % (self.loop_loc(fn, header), reason))
        r = self.loop_generic(fn, st, L, header, pred, reason)
        self.loopstats['generic'] += 1
        return r

    def loop_loc(self, fn, header):
        for i in fn.blocks[header]['insts']:
            if i.get('loc'):
                return short(i['loc'])
        return '?'

    def phis(self, fn, header):
        return [i for i in fn.blocks[header]['insts'] if i['op'] == 'phi']

    def body_states(self, fn, st, L, header, env):
        """one iteration from the header with the given phi values
        -> latch list [(state, pred)], exit list [(state, block, pred)], other endings"""
        s = st.copy()
        s.env.update(env)
        stop = set([header])
        for b in L['blocks']:
            for t in succs(fn.blocks[b]):
                if t not in L['set']:
                    stop.add(t)
        work, res = [], []
        self.run_block(fn, s, header, None, work, res, 0, False)
        res += self.explore(fn, work, stop)
        outs_l, outs_e, errs = [], [], []
        for kind, s2, v in res:
            if kind == 'stop':
                if v[0] == header:
                    outs_l.append((s2, v[1]))
                else:
                    outs_e.append((s2, v[0], v[1]))
            else:
                errs.append((kind, s2, v))
        return outs_l, outs_e, errs

    def loop_closed(self, fn, st, L, header, pred):
        phis = self.phis(fn, header)
        init = {}
        for p in phis:
            for v, b in p['in']:
                if b == pred:
                    init[p['id']] = self.val(st, v)
        self.loopcounter += 1
        lid = self.loopcounter
        kap = fresh('k')
        kp = Poly.of(kap)
        # pass A: find affine steps
        phisym = {}
        for p in phis:
            iv = init[p['id']]
            if isinstance(iv, (Formula, tuple)):
                raise NotAffine('a flag or aggregate carried round the loop')
            if p['ty'] in ('double', 'float'):
                raise NotAffine('a floating point accumulator')
            b, off = self.base_of(iv)
            f = Poly.of(fresh('phi'))
            phisym[p['id']] = f if b is None else Poly.of(Atom.byid[b]) + f
        steps = self.find_steps(fn, st, L, header, phis, init, phisym)
        env = {}
        for p in phis:
            env[p['id']] = init[p['id']] + steps[p['id']] * kp
        # pass B: collect events
        self.silent += 1
        try:
            defer = frozenset()
            for _ in range(3):
                s = st.copy()
                s.facts.add(ge(kp, 0))
                s.loopctx = dict(id=lid, kappa=kp, rec=None, defer=defer, reads=set())
                s.info['lev'] = ()
                s.info['seq'] = 0
                latch, exits, errs = self.body_states(fn, s, L, header, env)
                wr = set()
                for s2, _p in latch:
                    for e in s2.info['lev']:
                        wr.add(e.base)
                        if e.rec is not None and e.rec != 'havoc':
                            self.collect_bases(e.rec, wr)
                rd = s.loopctx['reads']
                nd = frozenset(b for b in wr if b is not None)
                if not (nd & rd) - defer:
                    break
                defer = defer | (nd & rd)
        finally:
            self.silent -= 1
        nf0 = self.factlen(st)
        evs = []
        conts = []
        for s2, _p in latch:
            decisions = self.decisions(st, s2)
            conts.append(decisions)
        for (s2, _p), dec in zip(latch, conts):
            for e in s2.info['lev']:
                evs.append(Ev(e.seq, dec, e.base, e.off, e.size, e.val, e.rec))
        common = [d for d in (conts[0] if conts else []) if all(d in c for c in conts)]
        self.bodies.append((lid, kap, [(s2.info['lev'], s2.events[len(st.events):], dec, s2) for (s2, _p), dec in zip(latch, conts)], st))
        for e in evs:
            e.guards = [g for g in e.guards if g not in common]
        if len(latch) > 1:
            # renumber: same instruction on different paths keeps its own entry; order by seq is only valid per path
            pass
        # addresses / guards must not depend on deferred reads
        for e in evs:
            for q in ([e.off] if e.off is not None else []) + [x for x in e.guards]:
                if self.has_lread(q, lid):
                    raise NotAffine('an address depends on values written in the loop')
        for d in common:
            if self.has_lread(d, lid):
                raise NotAffine('the exit test depends on values written in the loop')
        # pass C: checks, with the loop's own earlier iterations visible
        s = st.copy()
        s.facts.add(ge(kp, 0))
        sol = self.solve_N(common, [self.decisions(st, e[0]) for e in exits], kap.id) if latch else None
        if sol is not None and any(d.op == 'ne' and kap.id in fatoms(d) for d in common):
            # left only when the counter meets its end exactly: it has to start on the near side of it
            if st.facts.proves(ge(sol, 0)):
                s.facts.add(le(kp, sol))
            else:
                self.assumed.add('a loop that tests for inequality meets its end')
                s.facts.add(le(kp, sol))
        # an inequality test that each iteration has to pass: a counter that starts on the near side never gets past it
        caps = []
        for d in common:
            co = d.a.coef_of(kap.id) if sol is None and d.op == 'ne' else None
            if co is not None and co[0].t:
                q = (-co[1]).divexact(co[0])
                if q is not None and q.isint() and st.facts.proves(ge(q, 0)):
                    caps.append(q)
        for q in caps:
            s.facts.add(le(kp, q))
        openrec = Rec('loop', loop=lid, n=kp, events=evs, kappa=kap.id)
        s.log.append(openrec)
        s.loopctx = dict(id=lid, kappa=kp, rec=openrec, defer=frozenset(), reads=set())
        s.info['lev'] = ()
        s.info['seq'] = 0
        latchC, errsC = [], []
        lin = [d for d in common if kap.id in fatoms(d) and d.op in ('le', 'eq', 'ne')]
        starts = []
        s0 = s.copy()
        s0.facts.add(eq(kp, 0))
        if not s0.facts.contradictory():
            starts.append(s0)
        s1 = s.copy()
        s1.facts.add(ge(kp, 1))
        for d in lin:
            s1.facts.add(d.subst({kap.id: kp - 1}))
            s1.facts.add(d.subst({kap.id: Poly.const(0)}))
        if latch and not s1.facts.contradictory():
            starts.append(s1)
        for s0 in starts:
            l2, e2, r2 = self.body_states(fn, s0, L, header, env)
            latchC += l2
            errsC += r2
        for kind, s2, v in errsC:
            self.loop_errors.append((kind, s2, v))
        # exits
        out = []
        # (i) zero completed iterations
        s0 = st.copy()
        lat0, ex0, er0 = self.body_states(fn, s0, L, header, {p['id']: init[p['id']] for p in phis})
        for s2, b, pr in ex0:
            out.append((s2, b, pr))
        # (ii) N >= 1 completed iterations
        if latch:
            N = fresh('N')
            Np = Poly.of(N)
            # single exit: solve for N
            if sol is not None:
                Np = sol
            s1 = st.copy()
            s1.facts.add(ge(Np, 1))
            for q in caps:
                s1.facts.add(le(Np, q))
            for d in common:
                s1.facts.add(d.subst({kap.id: Np - 1}))
                s1.facts.add(d.subst({kap.id: Poly.const(0)}))
            if not s1.facts.dead and not s1.facts.contradictory():
                s1.log.append(Rec('loop', loop=lid, n=Np, events=evs, kappa=kap.id))
                s1.quants.append(('loop', kap.id, Np, common, conts))
                levs = []
                for s2, _p in latchC[:1]:
                    levs = s2.events[len(st.events):]
                cev = self.loop_events(st, latchC)
                if cev:
                    s1.events.append(('loop', kap.id, Np, cev))
                if st.loopctx:
                    self.lev(s1, Ev(self.next_seq(s1), None, None, None, None, None, rec=s1.log[-1]))
                    st.loopctx['reads'].update(s.loopctx['reads'])
                lat1, ex1, er1 = self.body_states(fn, s1, L, header, {p['id']: init[p['id']] + steps[p['id']] * Np for p in phis})
                for s2, b, pr in ex1:
                    out.append((s2, b, pr))
                if not ex1 and not er1 and not er0 and lat1 and sol is None and latchC and not errsC:
                    self.endless(fn, st, s1, header)
        return out

    def endless(self, fn, st, s1, header):
        """no iteration after the first can leave"""
        if self.silent or st.loopctx or st.facts.contradictory():
            return
        self.rep.fail(LAB_END, 'once entered the loop is never left', self.loop_loc(fn, header), [repr(c) for c in s1.facts.clauses()][-6:])

    def loop_events(self, st, latch):
        """opaque calls made by one generic iteration, per partition of the body"""
        res = []
        for s2, _p in latch:
            ev = s2.events[len(st.events):]
            if ev:
                d = self.decisions(st, s2)
                if (ev, d) not in res:
                    res.append((ev, d))
        return res

    def collect_bases(self, rec, acc):
        for e in rec.events:
            if e.rec is not None and e.rec != 'havoc':
                self.collect_bases(e.rec, acc)
            else:
                acc.add(e.base)

    def factlen(self, st):
        return (len(st.facts.les), len(st.facts.eqs), len(st.facts.nes))

    def decisions(self, st0, st1):
        """formulas taken on the way from st0 to st1 (from the trail plus forks)"""
        out = []
        f0, f1 = st0.facts, st1.facts
        for name, mkf in (('les', 'le'), ('eqs', 'eq'), ('nes', 'ne')):
            a, b = getattr(f0, name), getattr(f1, name)
            for t in b:
                if t not in a:
                    fm = Formula(mkf, Poly(t))
                    out.append(fm)
        for k, v in f1.lits.items():
            if k not in f0.lits:
                x = Formula('atom', Atom.byid[k])
                out.append(x if v else neg(x))
        return out

    def has_lread(self, q, lid):
        for a in deep_atoms(q):
            at = Atom.byid[a]
            if at.kind == 'lread' and at.args[0] == lid:
                return True
        return False

    def solve_N(self, common, exits, kid):
        if len(exits) < 1:
            return None
        for d in common:
            if d.op not in ('le', 'ne'):
                continue
            co = d.a.coef_of(kid)
            if co is None or not co[0].t:
                continue
            k, a = co
            nd = neg(d)
            if not all(nd in e for e in exits):
                continue
            if d.op == 'le':
                # a + k*kappa <= 0 continues, a + k*kappa >= 1 leaves
                if k.isconst() and k.cval() == 1:
                    return 1 - a
            else:
                q = (-a).divexact(k)
                if q is not None and q.isint():
                    return q
        return None

    def find_steps(self, fn, st, L, header, phis, init, phisym):
        self.silent += 1
        try:
            s = st.copy()
            s.loopctx = dict(id=0, kappa=const(0), rec=None, defer=frozenset(), reads=set())
            s.info['lev'] = ()
            s.info['seq'] = 0
            latch, exits, errs = self.body_states(fn, s, L, header, phisym)
        finally:
            self.silent -= 1
        steps = {}
        mine = set()
        for p in phis:
            for a in phisym[p['id']].atoms():
                if Atom.byid[a].name.startswith('phi#'):
                    mine.add(a)
        if not latch:
            return {p['id']: const(0) for p in phis}
        for s2, pr in latch:
            for p in phis:
                for v, b in p['in']:
                    if b == pr:
                        nv = self.val(s2, v)
                        if not isinstance(nv, Poly):
                            raise NotAffine('a flag carried round the loop')
                        d = nv - phisym[p['id']]
                        if deep_atoms(d) & mine or any(Atom.byid[a].kind in ('lread',) for a in deep_atoms(d)):
                            raise NotAffine('a loop-carried value that does not advance by a constant step')
                        if any(Atom.byid[a].name.startswith(('undef', 'part#', 'inv#')) for a in deep_atoms(d)):
                            raise NotAffine('unknown step')
                        if p['id'] in steps and steps[p['id']] != d:
                            raise NotAffine('different steps on different paths')
                        steps[p['id']] = d
        # steps must be loop invariant: only atoms known before the loop
        return steps

    # ---- loops without a closed form: inductive invariants from templates, verified by the largest-inductive-subset rule
    def loop_generic(self, fn, st, L, header, pred, reason):
        if self.opts.get('no_invariants'):
            raise Unsupported('loop at %s: %s' % (self.loop_loc(fn, header), reason))
        phis = self.phis(fn, header)
        init = {}
        for p in phis:
            for v, b in p['in']:
                if b == pred:
                    init[p['id']] = self.val(st, v)
                    break
        self.loopcounter += 1
        lid = self.loopcounter
        # header variables: one abstract value per phi, one per memory cell written at a fixed place
        hv = {}
        for p in phis:
            iv = init[p['id']]
            if isinstance(iv, tuple):
                raise Unsupported('loop at %s: an aggregate carried round the loop' % self.loop_loc(fn, header))
            if p['ty'] == 'i1' or isinstance(iv, Formula):
                hv[p['id']] = ('bool', Formula('atom', fresh('flag')), self.asbool(st, iv), None)
            elif p['ty'] in ('double', 'float'):
                hv[p['id']] = ('other', Poly.of(fresh('hv')), None, None)
            else:
                b, off = self.base_of(iv)
                f = Poly.of(fresh('x'))
                hv[p['id']] = ('int', f, off, b)
        cells, broad, wild = {}, set(), False

        def header_state(silent):
            s = st.copy()
            env = {}
            for k, (kind, f, i, b) in hv.items():
                env[k] = f if b is None else Poly.of(Atom.byid[b]) + f
            if wild:
                s.log.append(Rec('havoc', extra=wildsym))
            for b in sorted(broad):
                s.log.append(Rec('havoc', base=b, extra=bsym[b]))
            for (b, off, size), (kind, f, i, vb) in cells.items():
                if b in broad:
                    continue
                s.log.append(Rec('w', base=b, off=off, size=size, val=f if vb is None else Poly.of(Atom.byid[vb]) + f))
            if silent:
                s.loopctx = dict(id=lid, kappa=const(0), rec=True, defer=frozenset(), reads=set())
                s.info['lev'] = ()
                s.info['seq'] = 0
            return s, env
        bsym, wildsym = {}, fresh('hv')
        # pointers that advance by whole elements count elements
        scale = {}

        def symid(k, d):
            return scale[k][0] if k in scale else d[1].a.id if isinstance(d[1], Formula) else next(iter(d[1].atoms()))

        def symval(k, v):
            v = self.base_of(v)[1]
            if k not in scale:
                return v
            v = (v - scale[k][2]).divexact(scale[k][1])
            if v is None or not v.isint():
                raise Unsupported('loop at %s: a pointer between elements' % self.loop_loc(fn, header))
            return v

        def value(s, pr, key):
            """value of a header variable when the body ends in s"""
            if isinstance(key, tuple):
                kind, f, i, vb = cells[key]
                return self.read(s, Poly.of(Atom.byid[key[0]]) + key[1], key[2], 'ptr' if vb is not None else 'i64')
            for p in phis:
                if p['id'] == key:
                    for v, b in p['in']:
                        if b == pr:
                            return self.val(s, v)
            raise Unsupported('phi without incoming value')

        def body(facts, silent, first=False):
            out = (None, [], [], [])
            cases = [()]
            if self.opts.get('split') and not silent0:
                cases = self.opts['split'](self, st, {k: d[1] for k, d in hv.items() if d[0] == 'int'}, {k: d[2] for k, d in hv.items() if d[0] == 'int'})
            for case in cases:
                s, env = header_state(silent)
                for g in list(facts) + list(case):
                    s.facts.add(g)
                if case:
                    s.info['split'] = True
                    if s.facts.dead or s.facts.contradictory():
                        continue
                if silent:
                    self.silent += 1
                try:
                    for acc, r in zip(out[1:], self.body_states(fn, s, L, header, env)):
                        acc.extend(r)
                finally:
                    if silent:
                        self.silent -= 1
            return out
        silent0 = bool(self.silent or st.loopctx)

        # 1. what one iteration writes, to a fixed point
        for _ in range(12):
            s0, latch, exits, errs = body([], True)
            changed = False

            def note(ev):
                nonlocal changed, wild
                if ev.rec is not None and ev.rec != 'havoc':
                    acc = set()
                    self.collect_bases(ev.rec, acc)
                    for b in acc:
                        widen(b)
                    return
                if ev.rec == 'havoc':
                    widen(ev.base)
                    return
                if ev.base in broad:
                    return
                k = (ev.base, ev.off, ev.size)
                if k in cells:
                    return
                own = set(symid(k2, d) for k2, d in list(hv.items()) + list(cells.items()))
                if deep_atoms(ev.off) & own or any(Atom.byid[a].name.startswith(('hv', 'inv#', 'part#', 'x#')) for a in deep_atoms(ev.off) if Atom.byid[a].kind != 'base'):
                    widen(ev.base)
                    return
                for (b2, o2, z2) in cells:
                    if b2 == ev.base:
                        d = o2 - ev.off
                        if not (d.isconst() and (d.cval() >= ev.size or -d.cval() >= z2)):
                            widen(ev.base)
                            return
                iv = self.read(st, Poly.of(Atom.byid[ev.base]) + ev.off, ev.size, 'i64')
                if isinstance(ev.val, Poly):
                    vb, vo = self.base_of(ev.val)
                else:
                    vb = None
                if isinstance(iv, Formula) or not isinstance(iv, Poly) or not isinstance(ev.val, Poly):
                    widen(ev.base)
                    return
                ib, io = self.base_of(iv)
                if ib != vb:
                    iv = self.read(st, Poly.of(Atom.byid[ev.base]) + ev.off, ev.size, 'ptr')
                    ib, io = self.base_of(iv)
                cells[k] = ('int', Poly.of(fresh('x')), io, ib) if ib == vb else ('other', Poly.of(fresh('hv')), None, None)
                changed = True

            def widen(b):
                nonlocal changed, wild
                if b is None:
                    if not wild:
                        wild = changed = True
                elif b not in broad:
                    broad.add(b)
                    bsym[b] = fresh('hv')
                    changed = True
            for s2, pr in latch:
                for ev in s2.info['lev']:
                    note(ev)
            for s2, pr in latch:
                for k in list(hv) + [c for c in cells if c[0] not in broad]:
                    d = hv.get(k) or cells[k]
                    if d[0] != 'int':
                        continue
                    v = value(s2, pr, k)
                    vb = self.base_of(v)[0] if isinstance(v, Poly) else BOT
                    if vb != d[3]:
                        n = ('other', Poly.of(fresh('hv')), None, None)
                        if k in hv:
                            hv[k] = n
                        else:
                            cells[k] = n
                        changed = True
            for k, d in list(hv.items()):
                if d[0] != 'int' or d[3] is None or k in scale:
                    continue
                y = fresh('x')
                for c in (8, 4):
                    f2 = d[2] + Poly.of(y) * c
                    vs = [(self.base_of(value(s2, pr, k))[1].subst({symid(k, d): f2}) - d[2]).divexact(c) for s2, pr in latch]
                    if vs and all(v is not None and v.isint() for v in vs):
                        scale[k] = (y.id, c, d[2])
                        hv[k] = ('int', f2, d[2], d[3])
                        changed = True
                        break
            if not changed:
                break
        else:
            raise Unsupported('loop at %s: the writes of one iteration do not settle' % self.loop_loc(fn, header))
        vars_ = dict(hv)
        vars_.update({c: d for c, d in cells.items() if c[0] not in broad})
        ints = [k for k, d in vars_.items() if d[0] == 'int']
        bools = [k for k, d in vars_.items() if d[0] == 'bool']
        syms = {k: symid(k, vars_[k]) for k in ints}
        init_map = {syms[k]: const(0) if k in scale else vars_[k][2] for k in ints}
        self.gen_own = set(syms.values())

        # 2. candidate invariants
        cand = []

        def add(g):
            if g.op != 'const' and g not in cand:
                cand.append(g)
        F = {k: vars_[k][1] for k in ints}
        I = {k: vars_[k][2] for k in ints}
        step = {}
        for s2, pr in latch:
            vec = []
            for k in ints:
                v = value(s2, pr, k)
                d = self.base_of(v)[1] - F[k]
                vec.append(int(d.cval()) if d.isconst() and d.isint() else None)
            step.setdefault(tuple(vec), 1)
        for n, k in enumerate(ints):
            add(eq(F[k], I[k]))
            add(ge(F[k], I[k]))
            add(le(F[k], I[k]))
            add(ge(F[k], 0))
            for m, j in enumerate(ints):
                if m <= n:
                    continue
                for a, c in set([(1, 1), (1, -1)] + [(abs(v[m]) or 1, -(abs(v[n]) or 1)) for v in step if v[n] is not None and v[m] is not None]
                                + [(abs(v[m]) or 1, abs(v[n]) or 1) for v in step if v[n] is not None and v[m] is not None]):
                    add(eq(F[k] * a + F[j] * c, I[k] * a + I[j] * c))
                    add(le(F[k] * a + F[j] * c, I[k] * a + I[j] * c))
                    add(ge(F[k] * a + F[j] * c, I[k] * a + I[j] * c))
                if vars_[k][3] == vars_[j][3]:
                    add(le(F[k], F[j]))
                    add(ge(F[k], F[j]))
        # bounds named by the tests of the body, also of header values one step on
        own = set(syms.values())

        def mine(g):
            return bool(fatoms(g) & own)
        for s2 in [x[0] for x in latch] + [x[0] for x in exits]:
            for d in self.decisions(st, s2):
                if d.op in ('le', 'eq', 'ne') and mine(d):
                    for t in (d.a, d.a - 1, d.a + 1, -d.a, -d.a - 1, -d.a + 1):
                        if self.stable_atoms(t, own, bsym, wildsym):
                            add(mk('le', t))
        for tmpl in self.opts.get('templates', ()):
            for g in tmpl(self, fn, st, F, I):
                add(g)
        # what was known about the entry values holds as long as it is kept
        rev = {}
        for k in ints:
            if len(I[k].t) == 1:
                (mm, cc), = I[k].t.items()
                if len(mm) == 1 and cc == 1:
                    rev.setdefault(mm[0], []).append(k)
        for t in st.facts.les + st.facts.eqs:
            p = Poly(t)
            for a in p.atoms():
                for k in rev.get(a, ()):
                    add(mk('le', p.subst({a: F[k]})))
        # facts tied to the end points: x is still what it was, or what the body found out when it set x
        pairs = [(k, j) for n, k in enumerate(ints) for j in ints[n + 1:] if vars_[k][3] is None or vars_[j][3] is None] if len(ints) <= 4 else []
        for s2, pr in latch:
            decs = self.decisions(st, s2)
            now = {k: self.base_of(value(s2, pr, k))[1] for k in ints}
            # an end point may be kept as a start and a length
            for v, f, i in [(now[k], F[k], I[k]) for k in ints] + [(now[k] + now[j], F[k] + F[j], I[k] + I[j]) for k, j in pairs
                                                                   if now[k] != F[k] or now[j] != F[j]]:
                if v == f:
                    continue
                for d in decs:
                    if d.op == 'atom' or d.op == 'not' and d.a.op == 'atom':
                        g = self.reanchor(d, v, f, own)
                        if g is not None and self.stable_atoms(g, own, bsym, wildsym):
                            add(disj(eq(f, i), g))
                    elif d.op in ('le', 'eq', 'ne') and any(Atom.byid[x].kind == 'init' for x in fatoms(d)):
                        g = self.reanchor(d, v, f, own)
                        if g is not None and self.stable_atoms(g, own, bsym, wildsym):
                            add(disj(eq(f, i), g))
        inv = [g for g in cand if self.proves_or(st, g.subst(init_map))]
        binv = []
        for k in bools:
            t = st.tri(vars_[k][2])
            if t is not None:
                binv.append((k, t))

        def bform(k, t):
            return vars_[k][1] if t else neg(vars_[k][1])
        # 3. the largest inductive subset
        for _ in range(60):
            s0, latch, exits, errs = body(inv + [bform(k, t) for k, t in binv], True)
            drop, bdrop = set(), set()
            for s2, pr in latch:
                if s2.facts.contradictory() or self.opts.get('lemmas') and self.proves_or(s2, FALSE):
                    continue
                mp = {}
                for k in ints:
                    mp[syms[k]] = symval(k, value(s2, pr, k))
                for n, g in enumerate(inv):
                    if n not in drop and not self.proves_or(s2, g.subst(mp)):
                        drop.add(n)
                for n, (k, t) in enumerate(binv):
                    v = self.asbool(s2, value(s2, pr, k))
                    if s2.tri(v) is not t:
                        bdrop.add(n)
            if not drop and not bdrop:
                break
            inv = [g for n, g in enumerate(inv) if n not in drop]
            binv = [x for n, x in enumerate(binv) if n not in bdrop]
        else:
            raise Unsupported('loop at %s: no inductive invariant' % self.loop_loc(fn, header))
        # drop what others imply, to keep later queries small
        slim = []
        for n, g in enumerate(inv):
            s = st.facts.copy()
            for h in slim:
                s.add(h)
            if not s.proves(g):
                slim = [h for h in slim]
                slim.append(g)
        if os.environ.get('VF_INV'):
            print('LOOP', self.loop_loc(fn, header), {k: (F[k], I[k]) for k in ints}, 'slim', [g for g in slim if g.op == 'or'], 'cand', [g for g in cand if g.op == 'or'], flush=True)
        # 4. one generic iteration with checks on, and the ways out
        s0, latch, exits, errs = body(slim + [bform(k, t) for k, t in binv], False)
        self.pending += errs
        reads = set()
        outs = []
        rep = []
        for s2, _p in latch:
            ev = s2.events[len(st.events):]
            if not self.silent and not ev and hv and not (cells or broad or wild) and not s2.facts.contradictory():
                if all(d[0] != 'other' and same(d[1] if d[3] is None else Poly.of(Atom.byid[d[3]]) + d[1], value(s2, _p, k)) for k, d in hv.items()) and self.calls_nothing(fn, L):
                    self.rep.fail(LAB_END, 'a pass of the loop changes nothing, so it is repeated for ever', self.loop_loc(fn, header), [repr(c) for c in s2.facts.clauses()][-6:])
            if not self.silent and not st.loopctx:
                nxt = {}
                for k in ints:
                    nxt[syms[k]] = symval(k, value(s2, _p, k))
                self.gbodies.append((self.loop_loc(fn, header), init_map, nxt, ev, s2, st))
            if ev and (ev, None) not in rep:
                rep.append((ev, self.decisions(st, s2)))
        for s2, b, pr in exits:
            if rep:
                s2.events.insert(len(st.events), ('gloop', rep))
            if st.loopctx:
                whole = set(c[0] for c in cells)
                lev = []
                if self.opts.get('inner_cells'):
                    for c, d in cells.items():
                        if c[0] not in broad and d[0] == 'int':
                            lev.append(Ev(self.next_seq(s2), None, c[0], c[1], c[2], self.read(s2, Poly.of(Atom.byid[c[0]]) + c[1], c[2], 'i64' if d[3] is None else 'ptr')))
                    whole = set(c[0] for c, d in cells.items() if d[0] != 'int')
                    lev = [ev for ev in lev if ev.base not in whole]
                lev = [Ev(self.next_seq(s2), None, b2, None, None, None, rec='havoc') for b2 in list(broad) + list(whole) + ([None] if wild else [])] + lev
                have = st.info.get('lev', ())
                s2.info['lev'] = have + tuple(lev) + tuple(s2.info.get('lev', ())[len(have):])
            outs.append((s2, b, pr))
        return outs

    def calls_nothing(self, fn, L):
        """no call in the loop whose result may differ from one pass to the next"""
        for b in L['blocks']:
            for ins in fn.blocks[b]['insts']:
                if ins['op'] in ('call', 'invoke') and not re.match(r'llvm\.', ins.get('fn') or '') and not re.search(r'^Elem::operator[<>=!]', ins.get('dn', '')):
                    return False
        return True

    def proves_or(self, s, g):
        lem = self.opts.get('lemmas')
        if lem:
            if s.facts.proves(g) or g.op == 'or' and (s.facts.proves(g.a) or s.facts.proves(g.b)):
                return True
            c = s.info.get('lemmas')
            if c is None or c[0] is not s.facts or c[1] != len(s.facts.clauses()):
                c = (s.facts, len(s.facts.clauses()), lem(s, s.facts.copy(), []))
                s.info['lemmas'] = c
            fx = c[2]
            if fx.dead or fx.contradictory() or fx.proves(g) or g.op == 'or' and (fx.proves(g.a) or fx.proves(g.b)):
                return True
            if self.opts.get('lemmas_prove'):
                return self.opts['lemmas_prove'](s, fx, g)
            fx = lem(s, fx.copy(), [g])
            return fx.contradictory() or (fx.proves(g.a) or fx.proves(g.b) if g.op == 'or' else False) or fx.proves(g)
        if g.op == 'or':
            return s.facts.proves(g.a) or s.facts.proves(g.b) or s.facts.proves(g)
        return s.facts.proves(g)

    def stable_atoms(self, x, own, bsym, wildsym):
        """only values that one iteration does not change (or header variables)"""
        tags = set(a.name for a in bsym.values()) | {wildsym.name}
        for a in deep_atoms(x):
            at = Atom.byid[a]
            if a in own:
                continue
            if at.kind == 'init':
                if at.args[0] in tags:
                    return False
                continue
            if at.kind in ('base', 'idiv'):
                continue
            if at.name.startswith(('x#', 'phi#', 'flag#', 'part#', 'undef')) or at.kind == 'lread':
                return False
        return True

    def reanchor(self, d, v, f, own):
        """the test d, which speaks of places at fixed distances from v, said of f instead; None if it does not fit"""
        hit = [False]

        def conv(x):
            if isinstance(x, Poly):
                if not (deep_atoms(x) & own):
                    return x
                for m in v.t:
                    if m in x.t and deep_atoms(Poly({m: 1})) & own:
                        c = _norm(Fraction(x.t[m]) / v.t[m])
                        r = x - v.scale(c)
                        if not (deep_atoms(r) & own):
                            hit[0] = True
                            return f.scale(c) + r
                # inside compound atoms only
                out = Poly({})
                for m, c in x.t.items():
                    t = Poly({(): c})
                    for a in m:
                        at = Atom.byid[a]
                        if at.kind in ('init',) and deep_atoms(Poly.of(at)) & own:
                            t = t * rebuild(at.kind, tuple(conv(y) for y in at.args))
                        elif deep_atoms(Poly.of(at)) & own:
                            raise NotAffine('')
                        else:
                            t = t * Poly.of(at)
                    out = out + t
                return out
            if isinstance(x, Formula):
                if x.op in ('le', 'eq', 'ne'):
                    return mk(x.op, conv(x.a))
                if x.op == 'not':
                    return neg(conv(x.a))
                if x.op == 'atom':
                    return batom(x.a.kind, *[conv(y) for y in x.a.args])
                raise NotAffine('')
            if isinstance(x, tuple):
                return tuple(conv(y) for y in x)
            return x
        try:
            g = conv(d)
        except NotAffine:
            return None
        return g if hit[0] else None


LAB_END = 'loops end'


def same(a, b):
    return isinstance(a, Poly) and isinstance(b, Poly) and a == b or a is b


class NotAffine(Exception):
    pass


def fatoms(f):
    return deep_atoms(f)


def deep_atoms(x, acc=None):
    if acc is None:
        acc = set()
    if isinstance(x, Poly):
        for m in x.t:
            for a in m:
                if a not in acc:
                    acc.add(a)
                    for y in Atom.byid[a].args:
                        deep_atoms(y, acc)
    elif isinstance(x, Formula):
        if x.op == 'atom':
            if x.a.id not in acc:
                acc.add(x.a.id)
                for y in x.a.args:
                    deep_atoms(y, acc)
        elif x.op != 'const':
            deep_atoms(x.a, acc)
            if x.b is not None:
                deep_atoms(x.b, acc)
    elif isinstance(x, (tuple, list)):
        for y in x:
            deep_atoms(y, acc)
    elif isinstance(x, Atom):
        acc.add(x.id)
    return acc


def succs(blk):
    t = blk['insts'][-1]
    if t['op'] == 'br':
        return t['succ']
    if t['op'] == 'switch':
        return [t['def']] + [b for _, b in t['cases']]
    if t['op'] == 'invoke':
        return [t['normal']]
    return []
