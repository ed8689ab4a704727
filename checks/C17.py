"""Fixed-size tensor operations: polynomial identity with the defining expression."""
from engine import lifecycle, build
from engine.interp import short
from engine.facts import Facts
from engine.terms import *
from . import tensor_ops as T
from .C19 import HANDLERS as MATH

TECHNIQUE = 'symbolic-term normal forms (rational function identities) of every written component, from fully unrolled LLVM IR'
LEVEL_NOTE = '''Exact over the reals for every input value; extents are the ones listed (all that exist for the 2x2/3x3 kernels, 1..4 per dimension for the generic ones, up to 7 in the thorough tier).
Rounding is not modelled. C arrays and strided/permuted slices. Trusts clang's IR and the engine's term arithmetic.'''
EXPLANATION = '''Each operation is instantiated for each extent on C arrays and on slices with padded or permuted strides, compiled and fully unrolled; the abstract interpreter computes
the normal form of the value stored in each component and of the value returned. Obligations: each component of each destination holds the defining rational function of the inputs; no other
location is written, in particular no read-only operand.'''
ASSUMPTIONS = ['real arithmetic: rounding, overflow and NaN aside', 'operands do not overlap (the operations declare them so)']


def storage(shape, style):
    """-> element strides and unit-stride dimension for a slice"""
    if style == 'c':
        st, s = [], 1
        for n in reversed(shape):
            st.insert(0, s)
            s *= n
        return st, len(shape) - 1
    if style == 'pad':
        return ([2 * shape[1] + 3, 1], 1) if len(shape) == 2 else ([1], 0)
    if style == 'perm':
        return ([1, shape[0] + 2], 0) if len(shape) == 2 else ([3], -1)


def gen(deep):
    src = ['#include "tensorOps.hpp"\n#include "ArraySlice.hpp"\n#include "vf.hpp"\nnamespace t = LvArray::tensorOps; using LvArray::ArraySlice;']
    spec = {}
    k = 0
    for o in T.OPS:
        if o.f is None and o.ret is None:
            continue
        for style in ('c', 'pad', 'perm'):
            zs = T.sizes_of(o, deep)
            if style != 'c' and not deep and len(zs) > 3:
                zs = zs[-2:]
            for z in zs:
                for real in (('double', 'float') if style == 'c' and z == zs[-1] else ('double',)):
                    k += 1
                    n = 'vf_%d_%s_%s_%s' % (k, o.name, style, '_'.join(map(str, z.values())))
                    params, args, pre, lay = [], [], [], []
                    for i, ((role, _), shp) in enumerate(zip(o.operands, T.shapes(o, z))):
                        c = ' const' if role == 's' else ''
                        st, usd = storage(shp, style)
                        lay.append((role, shp, st))
                        if style == 'c':
                            params.append('%s%s (&x%d)%s' % (real, c, i, ''.join('[ %d ]' % d for d in shp)))
                            args.append('x%d' % i)
                        else:
                            params.append('%s%s * x%d' % (real, c, i))
                            nd = len(shp)
                            pre.append('long d%d[ %d ] = { %s }, s%d[ %d ] = { %s }; ArraySlice< %s%s, %d, %d, long > const y%d( x%d, d%d, s%d );' % (
                                i, nd, ', '.join(map(str, shp)), i, nd, ', '.join(map(str, st)), real, c, nd, usd, i, i, i, i))
                            args.append('y%d' % i)
                    if o.scalar:
                        params.append('%s c' % real)
                        args.append('c')
                    r = real if o.ret else 'void'
                    src.append('extern "C" %s %s( %s ) { %s %st::%s%s( %s ); }' % (r, n, ', '.join(params), ' '.join(pre), 'return ' if o.ret else '', o.name, T.tmpl(o, z), ', '.join(args)))
                    spec[n] = (o, z, lay, 4 if real == 'float' else 8)
    return '\n'.join(src), spec


PASS = 'function(loop-simplify,lcssa,loop(loop-rotate),loop-unroll-full,sroa,early-cse,instsimplify,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts>,adce)'
# trip counts are constants; nested loops are unrolled from the inside out, one level per repetition
UNROLL = ['-unroll-threshold=1000000', '-unroll-full-max-count=1000', '-unroll-max-count=1000', '--extra', 'module(%s)' % ','.join([PASS] * 4)]


def h_real(ip, fn, st, ins, a):
    # the float and double functions denote the same real function
    st.env[ins['id']] = Poly.of(atom('f', ins['dn'].split('(')[0].replace('tf', 't').replace('sf', 's'), *a))


def run(ctx):
    text, spec = gen(ctx.tier == 'thorough')

    def where(ip, o):
        for b in ip.fn.js['blocks']:
            for i in b['insts']:
                for f, l, fn in i.get('loc') or ():
                    if '/src/' in f and 'ensorOps' in f and fn == o.name:
                        return 'src/' + f.split('/src/')[1] + ':' + o.name
        return 'src/genericTensorOps.hpp: ' + o.name

    def fin(ip, f, outs, rep):
        o, z, lay, es = spec[f]
        loc = where(ip, o)
        base = [Poly.of(atom('base', 'x%d' % i)) for i in range(len(lay))]
        desc = '%s %s' % (o.name, 'x'.join(map(str, z.values())))

        def addr(i, idx):
            return sum(a * b for a, b in zip(idx, lay[i][2])) * es

        def get(i, *idx):
            at = atom('init', '', base[i] + addr(i, idx), {4: 'float', 8: 'double'}[es])
            return Poly.of(at)
        c = sym('c')
        exp = o.f(z, get, c) if o.f else {}
        for kind, st, v in outs:
            if kind != 'ret':
                rep.check(False, 'operation completes', '%s ends in %s' % (desc, kind), loc)
                continue
            for i, comps in exp.items():
                for idx, want in comps.items():
                    got = ip.read(st, base[i] + addr(i, idx), es, {4: 'float', 8: 'double'}[es])
                    if any(Atom.byid[a].name.startswith(('part', 'hv', 'inv#')) for a in got.atoms()):
                        rep.undecided.append('%s%s: %r' % (desc, idx, got))
                        continue
                    rep.check(got == want, 'stored component equals its definition', '%s: component %s holds %s instead of %s' % (desc, idx, trunc(got), trunc(want)), loc)
            # nothing else is written
            ok = {}
            for i, (role, shp, _) in enumerate(lay):
                if role != 's':
                    import itertools
                    for idx in itertools.product(*map(range, shp)):
                        ok[(base[i] + addr(i, idx)).key()] = 1
            for r in st.log:
                if r.base is not None and Atom.byid[r.base].name.startswith('&'):
                    continue
                good = r.kind == 'w' and (Poly.of(Atom.byid[r.base]) + r.off).key() in ok and r.size == es
                if not good and r.kind in ('loop', 'havoc'):
                    rep.undecided.append(desc + ': writes not resolved')
                    continue
                if not good and r.kind in ('cpy', 'fill'):
                    b = Poly.of(Atom.byid[r.base]) + r.off
                    sz = Poly.const(r.size)
                    good = sz.isconst() and all((b + q).key() in ok for q in range(0, int(sz.cval()), es))
                rep.check(good, 'only destination components are written', '%s writes %s+%r' % (desc, Atom.byid[r.base].name if r.base is not None else '?', r.off), loc)
            if o.ret == 'maxabs':
                maxabs(ip, st, v, [get(0, i) for i in range(z['I'])], rep, desc, loc)
            elif o.ret:
                want = o.ret(z, get, c)
                rep.check(v == want, 'returned value equals its definition', '%s returns %s instead of %s' % (desc, trunc(v), trunc(want)), loc)
    handlers = [(r'^(sqrt|fabs)f?$', h_real)] + MATH
    ctx.drive('c17', text=text, handlers=handlers, lvir_args=UNROLL, finish=fin, opts={'strict_loops': True})


def maxabs(ip, st, v, xs, rep, desc, loc):
    fx = Facts()
    for aid, val in st.facts.lits.items():
        a = Atom.byid[aid]
        if a.kind == 'flt0':
            fx.add(le(a.args[0], 0) if val else ge(a.args[0], 0))
    ab = [Poly.of(atom('f', 'fabs', x)) for x in xs]
    lab = 'returned value equals its definition'
    rep.check(v in ab, lab, '%s returns %s, which is not the magnitude of an entry' % (desc, trunc(v)), loc)
    for x in ab:
        rep.check(fx.proves(ge(v, x)), lab, '%s returns %s although %s may be larger' % (desc, trunc(v), trunc(x)), loc)


def trunc(p):
    s = repr(p)
    return s if len(s) < 160 else s[:160] + '...'
