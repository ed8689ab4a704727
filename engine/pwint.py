"""Piecewise affine interval domain for fixed-width integers.

A function of one integer argument x is interpreted over a partition of the range of x into intervals; on each interval every
register's unsigned representation is an affine function a*x + b that stays inside [0, 2^w).  Conversions and comparisons split
intervals exactly, so the result is exact for every value of x without enumerating values."""


class TooComplex(Exception):
    pass


class V:
    """representation a*x+b of a w-bit register"""
    __slots__ = ('a', 'b', 'w')

    def __init__(self, a, b, w):
        self.a, self.b, self.w = a, b, w

    def at(self, x):
        return self.a * x + self.b


class Mod:
    """known only modulo 2^w (more values of x than representations)"""
    __slots__ = ('w',)

    def __init__(self, w):
        self.w = w


class Split(Exception):
    def __init__(self, points):
        self.points = points   # new intervals start at these points


def width(ty):
    return int(ty[1:])


def rng(v, lo, hi):
    p, q = v.at(lo), v.at(hi)
    return (p, q) if p <= q else (q, p)


def wrap(v, w, lo, hi):
    """reduce a*x+b modulo 2^w on [lo,hi]; splits where it wraps"""
    M = 1 << w
    l, h = rng(v, lo, hi)
    if l // M == h // M:
        return V(v.a, v.b - (l // M) * M, w)
    if abs(v.a) != 1 or h // M - l // M > 4:
        return Mod(w)
    pts = []
    for k in range(l // M + 1, h // M + 1):
        # representation k*M
        x = (k * M - v.b) * v.a    # a = +-1
        pts.append(x if v.a > 0 else x + 1)
    raise Split(pts)


def signed(v, lo, hi):
    """signed reading of a representation; splits at the sign boundary"""
    if isinstance(v, Mod):
        raise TooComplex('a truncated value is inspected')
    S = 1 << (v.w - 1)
    l, h = rng(v, lo, hi)
    if h < S:
        return v
    if l >= S:
        return V(v.a, v.b - 2 * S, v.w)
    if abs(v.a) != 1:
        raise TooComplex('sign of a scaled value')
    x = (S - v.b) * v.a
    raise Split([x if v.a > 0 else x + 1])


def cmp(pred, p, q, lo, hi):
    """compare two affine functions on [lo,hi]; splits where the answer changes"""
    a, b = p.a - q.a, p.b - q.b

    def val(x):
        d = a * x + b
        return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[pred]
    if a == 0 or lo == hi:
        return val(lo)
    # root neighbourhood
    pts = set()
    r = -b // a
    for x in (r - 1, r, r + 1, r + 2):
        if lo < x <= hi:
            pts.add(x)
    pts = [x for x in sorted(pts) if val(x) != val(x - 1)]
    if pts:
        raise Split(pts)
    return val(lo)


class PW:
    def __init__(self, fn, argw, argsigned):
        self.fn, self.w, self.s = fn, argw, argsigned

    def run(self):
        """-> list of (lo, hi, kind, value) covering the whole range of x; kind 'ret' or 'error'"""
        W = 1 << self.w
        arg = self.fn.js['args'][0]
        work = []
        if self.s:
            work.append((-(W >> 1), -1, V(1, W, self.w)))
            work.append((0, (W >> 1) - 1, V(1, 0, self.w)))
        else:
            work.append((0, W - 1, V(1, 0, self.w)))
        out = []
        work = [(lo, hi, {arg['id']: v}, self.fn.entry, None, 0) for lo, hi, v in work]
        n = 0
        while work:
            lo, hi, env, blk, pred, i = work.pop()
            n += 1
            if n > 5000:
                raise TooComplex('too many pieces')
            insts = self.fn.blocks[blk]['insts']
            env = dict(env)
            try:
                if i == 0:
                    new = {}
                    for ins in insts:
                        if ins['op'] != 'phi':
                            break
                        for v, b in ins['in']:
                            if b == pred:
                                new[ins['id']] = self.val(env, v)
                    env.update(new)
                while True:
                    ins = insts[i]
                    if ins['op'] == 'phi':
                        i += 1
                        continue
                    r = self.step(env, ins, lo, hi)
                    if r is not None:
                        if r[0] == 'goto':
                            work.append((lo, hi, env, r[1], blk, 0))
                        else:
                            out.append((lo, hi, r[0], r[1]))
                        break
                    i += 1
            except Split as s:
                ps = [lo] + sorted(set(p for p in s.points if lo < p <= hi)) + [hi + 1]
                if len(ps) == 2:
                    raise TooComplex('no progress')
                for a, b in zip(ps, ps[1:]):
                    # re-shift values: representations stay valid on sub-intervals
                    work.append((a, b - 1, env, blk, pred, i))
        return sorted(out, key=lambda t: t[0])

    def val(self, env, o):
        if o['k'] == 'v':
            return env[o['v']]
        if o['k'] == 'int':
            w = o['w']
            return V(0, int(o['i']) % (1 << w), w)
        raise TooComplex('operand ' + o['k'])

    def step(self, env, ins, lo, hi):
        op = ins['op']
        if op in ('zext', 'sext', 'trunc'):
            v = self.val(env, ins['ops'][0])
            w = width(ins['ty'])
            if isinstance(v, Mod):
                if op == 'trunc':
                    env[ins['id']] = Mod(w)
                    return
                raise TooComplex('a truncated value is widened')
            if op == 'sext':
                v = signed(v, lo, hi)
            env[ins['id']] = wrap(V(v.a, v.b, w), w, lo, hi)
        elif op == 'freeze':
            env[ins['id']] = self.val(env, ins['ops'][0])
        elif op in ('add', 'sub'):
            p, q = (self.val(env, o) for o in ins['ops'])
            if isinstance(p, Mod) or isinstance(q, Mod):
                raise TooComplex('arithmetic on a truncated value')
            w = width(ins['ty'])
            env[ins['id']] = wrap(V(p.a + q.a, p.b + q.b, w) if op == 'add' else V(p.a - q.a, p.b - q.b, w), w, lo, hi)
        elif op in ('and', 'or', 'xor') and ins['ty'] == 'i1':
            p, q = (self.val(env, o) for o in ins['ops'])
            if p.a or q.a:
                raise TooComplex('bit logic')
            env[ins['id']] = V(0, {'and': p.b & q.b, 'or': p.b | q.b, 'xor': p.b ^ q.b}[op], 1)
        elif op == 'lshr' or op == 'ashr':
            p, q = (self.val(env, o) for o in ins['ops'])
            if q.a:
                raise TooComplex('variable shift')
            # only full sign extraction is affine
            if op == 'ashr':
                p = signed(p, lo, hi)
            l, h = rng(p, lo, hi)
            if l >> q.b == h >> q.b:
                env[ins['id']] = V(0, (l >> q.b) % (1 << p.w), p.w)
            elif abs(p.a) == 1 and (h >> q.b) - (l >> q.b) <= 4:
                pts = []
                for k in range((l >> q.b) + 1, (h >> q.b) + 1):
                    x = ((k << q.b) - p.b) * p.a
                    pts.append(x if p.a > 0 else x + 1)
                raise Split(pts)
            else:
                raise TooComplex('shift')
        elif op == 'icmp':
            p, q = (self.val(env, o) for o in ins['ops'])
            if isinstance(p, Mod) or isinstance(q, Mod):
                raise TooComplex('a truncated value is compared')
            pred = ins['pred']
            if pred[0] == 's':
                p, q = signed(p, lo, hi), signed(q, lo, hi)
            r = cmp(pred if pred in ('eq', 'ne') else pred[1:], p, q, lo, hi)
            env[ins['id']] = V(0, int(r), 1)
        elif op == 'select':
            c = self.val(env, ins['ops'][0])
            env[ins['id']] = self.val(env, ins['ops'][1 if c.b else 2])
        elif op == 'br':
            if 'c' not in ins:
                return 'goto', ins['succ'][0]
            c = self.val(env, ins['c'])
            return 'goto', ins['succ'][0 if c.b else 1]
        elif op == 'switch':
            raise TooComplex('switch')
        elif op == 'call':
            if ins.get('fn') == 'vf_error_path':
                return 'error', int(ins['args'][0]['i'])
            if (ins.get('fn') or '').startswith('llvm.dbg'):
                return
            raise TooComplex('call of ' + str(ins.get('dn')))
        elif op == 'ret':
            return 'ret', self.val(env, ins['ops'][0])
        elif op == 'unreachable':
            return 'error', 0
        else:
            raise TooComplex('instruction ' + op)
