"""Operands of mismatched extents are rejected: compile-fail witnesses, and dominance of the run-time checks."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from engine import build
from engine.terms import *
from . import tensor_ops as T

TECHNIQUE = 'compile-fail / compile-pass witnesses, one per operation, operand and dimension; path-condition entailment for run-time sized operands'
LEVEL_NOTE = '''The type checker decides each witness. Complete over the operations of the specification table (every documented fixed-size operation), every operand and every dimension; extents one less and one (or many) more than named.
Run-time sized operands are covered under LVARRAY_BOUNDS_CHECK, for every extent at run time.'''
EXPLANATION = '''For each operation, operand position and dimension: a call in which that one extent differs from the one named (smaller and larger) has to be rejected by the compiler, also for user types with a static SIZE
and for slices of the wrong rank; the call with matching extents has to compile. For slices whose extents are known at run time only, in a build with bounds checks: on each path on which the operation returns, the path
condition entails that each extent of each operand is the one named.'''
ASSUMPTIONS = ['g++ and clang++ agree on the well-formedness of the witnesses (clang++ decides)']

HEAD = '''#include "tensorOps.hpp"
#include "ArraySlice.hpp"
namespace t = LvArray::tensorOps;
template< int N, int ID > struct Sized { static constexpr int SIZE = N; double & operator[]( std::ptrdiff_t ) const; };
template< int NDIM, int USD > using Slice = LvArray::ArraySlice< double, NDIM, USD, long >;
'''


def declare(i, shp, role, kind='c', tag=0):
    if kind == 'c':
        return 'double %s(&x%d)%s' % ('const ' if role == 's' else '', i, ''.join('[ %d ]' % d for d in shp))
    if kind == 'size':
        return 'Sized< %d, %d > const & x%d' % (shp[0], tag, i)
    return 'Slice< %d, %d > const & x%d' % (len(shp), len(shp) - 1, i)


def line(o, z, shps, n, kinds, tag):
    ps = [declare(i, s, r, k, tag) for i, ((r, _), s, k) in enumerate(zip(o.operands, shps, kinds))]
    args = ['x%d' % i for i in range(len(shps))]
    if o.scalar:
        ps.append('double c')
        args.append('c')
    return 'inline void %s( %s ) { t::%s%s( %s ); }' % (n, ', '.join(ps), o.name, T.tmpl(o, z), ', '.join(args))


def witnesses():
    """-> (positive lines, negative lines that may share a unit, negative lines that need one each)"""
    pos, batch, single = [], [], []
    uniq = 1000

    def desc(o, z, what):
        return '%s%s %s' % (o.name, T.tmpl(o, z), what)
    for o in T.OPS:
        fixed = o.kind == T.SQ or o.sizes == ''
        for z in T.sizes_of(o):
            shps = T.shapes(o, z)
            n = len(pos)
            c = ['c'] * len(shps)
            pos.append((desc(o, z, 'with matching C arrays'), line(o, z, shps, 'p%d' % n, c, 0)))
            pos.append((desc(o, z, 'with slices'), line(o, z, shps, 'p%d' % (n + 1), ['slice'] * len(shps), 0)))
            pos.append((desc(o, z, 'with sized types'), line(o, z, shps, 'p%d' % (n + 2), ['size' if len(s) == 1 else 'c' for s in shps], n)))
        zs = T.sizes_of(o) if fixed else [None]
        for z in zs:
            for i, (role, ext) in enumerate(o.operands):
                for d in range(len(ext)):
                    for delta in (-1, 1, 'many'):
                        for kind in (('c', 'size') if len(ext) == 1 else ('c',)):
                            # a unique size in each shared witness keeps the compiler from merging diagnostics
                            uniq += 10
                            zz = z if fixed else {v: uniq + 3 * k for k, v in enumerate(o.sizes)}
                            shps = [list(s) for s in T.shapes(o, zz)]
                            if delta == 'many':
                                shps[i][d] = 100000000 + uniq
                            else:
                                shps[i][d] += delta
                            kinds = ['c'] * len(shps)
                            kinds[i] = kind
                            w = (desc(o, zz if fixed else {v: 0 for v in o.sizes}, '' if fixed else 'generic') + 'operand %d (%s) dimension %d off by %s' % (i, 'C array' if kind == 'c' else 'sized type', d, delta), o,
                                 line(o, zz, shps, 'n%d' % uniq, kinds, uniq))
                            if fixed and delta != 'many' and kind == 'c':
                                single.append(w)
                            else:
                                batch.append(w)
                uniq += 10
                zz = z if fixed else {v: uniq + 3 * k for k, v in enumerate(o.sizes)}
                shps = T.shapes(o, zz)
                wrong = [list(s) for s in shps]
                wrong[i] = [2, 2] if len(wrong[i]) == 1 else [2]
                kinds = ['c'] * len(shps)
                kinds[i] = 'slice'
                w = (desc(o, zz if fixed else {v: 0 for v in o.sizes}, 'operand %d is a slice of the wrong rank' % i), o, line(o, zz, wrong, 'n%d' % uniq, kinds, uniq))
                (single if fixed else batch).append(w)
    return pos, batch, single


def compile_(path, inc=()):
    return subprocess.run([build.CLANG] + build.flags(('NDEBUG',)) + list(inc) + ['-fsyntax-only', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-x', 'c++', path], capture_output=True, text=True)


def errors_by_line(stderr, path):
    """line of the unit -> error text, following the notes that say which call required the instantiation"""
    res = {}
    cur, stray = None, []
    pend = False
    mark = re.escape(path) + r':(\d+):\d+: '
    for l in stderr.split('\n'):
        m = re.match(r'(\S+?):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if m:
            if pend:
                stray.append(cur)
            cur, pend = '%s:%s: %s' % m.groups(), True
        m = re.match(mark, l)
        if m and cur is not None:
            res.setdefault(int(m.group(1)), cur)
            pend = False
    if pend:
        stray.append(cur)
    return res, stray


def run(ctx):
    w = build.workdir()
    pos, batch, single = witnesses()
    # the header alone compiles
    path = os.path.join(w, 'pos.cpp')
    open(path, 'w').write(HEAD + '\n'.join(l for _, l in pos) + '\n')
    r = compile_(path)
    err, stray = errors_by_line(r.stderr, path)
    if stray:
        raise build.AnalysisBroken('the headers do not compile: ' + stray[0])
    base = HEAD.count('\n') + 1
    for i, (d, l) in enumerate(pos):
        ctx.check(base + i not in err, 'matching extents compile', '%s is rejected: %s' % (d, err.get(base + i)), 'src/tensorOps.hpp: ' + d.split('<')[0])
    if ctx.viol:
        # rejection of wrong extents says nothing where right ones are rejected too
        ctx.notes.append('matching extents rejected')
    path = os.path.join(w, 'neg.cpp')
    open(path, 'w').write(HEAD + '\n'.join(l for _, _, l in batch) + '\n')
    r = compile_(path)
    err, stray = errors_by_line(r.stderr, path)
    for i, (d, o, l) in enumerate(batch):
        ctx.check(base + i in err, 'mismatched extents are rejected', 'a mismatched call compiles: %s' % d, where(o))
    # one unit per witness, sharing a precompiled header
    pch = os.path.join(w, 'head.hpp')
    open(pch, 'w').write('#pragma once\n' + HEAD)
    r = subprocess.run([build.CLANG] + build.flags(('NDEBUG',)) + ['-x', 'c++-header', pch, '-o', pch + '.pch'], capture_output=True, text=True)
    if r.returncode:
        raise build.AnalysisBroken('the headers do not compile: ' + r.stderr[:2000])

    def one(k):
        p = os.path.join(w, 's%d.cpp' % k)
        open(p, 'w').write(single[k][2] + '\n')
        r = compile_(p, ['-include-pch', pch + '.pch'])
        return 3 if 'precompiled header' in r.stderr else r.returncode
    with ThreadPoolExecutor(8) as ex:
        for (d, o, l), rc in zip(single, ex.map(one, range(len(single)))):
            if rc not in (0, 1):
                raise build.AnalysisBroken('compiler failed on witness ' + d)
            ctx.check(rc == 1, 'mismatched extents are rejected', 'a mismatched call compiles: %s' % d, where(o))
    ctx.extra['witnesses'] = {'compile': len(pos), 'reject': len(batch) + len(single)}
    runtime(ctx)


def where(o):
    return 'src/%s: %s' % ('fixedSizeSquareMatrixOpsImpl.hpp' if o.kind == T.SQ else 'genericTensorOps.hpp', o.name)


def runtime(ctx):
    src = ['#include "tensorOps.hpp"\n#include "ArraySlice.hpp"\n#include "vf.hpp"\nnamespace t = LvArray::tensorOps; using LvArray::ArraySlice;']
    spec = {}
    for k, o in enumerate(T.OPS):
        for z in T.sizes_of(o)[-2:]:
            n = 'vf_%d_%s_%s' % (k, o.name, '_'.join(map(str, z.values())))
            ps, pre, args = [], [], []
            shps = T.shapes(o, z)
            for i, ((role, _), shp) in enumerate(zip(o.operands, shps)):
                ps.append('double%s * x%d, long const * d%d, long const * s%d' % (' const' if role == 's' else '', i, i, i))
                pre.append('ArraySlice< double%s, %d, -1, long > const y%d( x%d, d%d, s%d );' % (' const' if role == 's' else '', len(shp), i, i, i, i))
                args.append('y%d' % i)
            if o.scalar:
                ps.append('double c')
                args.append('c')
            src.append('extern "C" void %s( %s ) { %s t::%s%s( %s ); }' % (n, ', '.join(ps), ' '.join(pre), o.name, T.tmpl(o, z), ', '.join(args)))
            spec[n] = (o, z, shps)

    def extent(i, j):
        return Poly.of(atom('init', '', Poly.of(atom('base', 'd%d' % i)) + 8 * j, 'i64'))

    def wanted(shps):
        return [(i, j, n) for i, shp in enumerate(shps) for j, n in enumerate(shp)]

    def settled(ip, f):
        shps = spec[f][2]
        return lambda st: all(st.facts.proves(eq(extent(i, j), n)) for i, j, n in wanted(shps))

    def fin(ip, f, outs, rep):
        o, z, shps = spec[f]
        rets = 0
        for kind, st, v in outs:
            if kind != 'ret':
                s = st.copy()
                for i, j, n in wanted(shps):
                    s.facts.add(eq(extent(i, j), n))
                rep.check(s.facts.dead or s.facts.contradictory(), 'matching run-time extents are accepted (bounds-check build)', '%s%s can end in %s although every extent matches' % (o.name, T.tmpl(o, z), kind), where(o))
                continue
            rets += 1
            for i, j, n in wanted(shps):
                rep.check(st.facts.proves(eq(extent(i, j), n)), 'a run-time extent is checked (bounds-check build)',
                          '%s%s can return although extent %d of operand %d is not %d' % (o.name, T.tmpl(o, z), j, i, n), where(o))
        rep.check(rets, 'matching run-time extents are accepted (bounds-check build)', '%s%s never returns' % (o.name, T.tmpl(o, z)), where(o))
    from .C17 import UNROLL, h_real, MATH
    ctx.drive('c18', text='\n'.join(src), handlers=[(r'^(sqrt|fabs)f?$', h_real)] + MATH, defs=('NDEBUG', 'LVARRAY_BOUNDS_CHECK'), lvir_args=UNROLL, finish=fin, opts={'strict_loops': True, 'goal': settled})
