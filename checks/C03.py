"""Indexing, slicing and permuted layouts: polynomial identities of addresses."""
import itertools
from engine import build, lifecycle, probe
from engine.interp import short
from engine.terms import *
from .C17 import UNROLL

TECHNIQUE = 'abstract interpretation of LLVM IR: polynomial normal forms of the addresses named by every way of indexing, and of the reported strides, sizes and extents'
LEVEL_NOTE = '''Exact for every extent and index; the rank and permutation are enumerated (every permutation of rank 1 to 4, all 120 of rank 5 in the thorough tier and a sample in quick). Index arithmetic is over the integers
(overflow aside). That a dense mixed-radix address is a bijection onto the allocation is the usual argument and not repeated by the machine.'''
EXPLANATION = '''For each permutation: the address named by a( i... ), by a[ i ][ j ]..., by a slice of every depth (mixing brackets and parentheses), through views, read-only views and slices, and data()[ linearIndex( i... ) ] is the polynomial
sum of index times dense stride of the layout order, relative to data(); strides(), dims(), size( d ), size() report the dense strides, the extents given and their product; the allocation made holds that many elements. The same
holds after every operation that changes extents. Iteration helpers over slices visit each index tuple once, in order, and pass the element of that tuple.'''
ASSUMPTIONS = ['index arithmetic does not overflow']

HEAD = '''#include "Array.hpp"
#include "StackBuffer.hpp"
#include "sliceHelpers.hpp"
#include "probe.hpp"
using namespace LvArray;
'''


def dense(perm, d):
    n = len(perm)
    st = [None] * n
    for i in range(n):
        st[perm[i]] = ' * '.join(d[perm[j]] for j in range(i + 1, n)) or '1'
    return st


def observe(o, n, d, st, ix, base='a.data()'):
    """statements that prove what object o reports and names"""
    s = []
    lin = ' + '.join('%s * ( %s )' % (i, t) for i, t in zip(ix, st))
    adr = '%s + ( %s )' % (base, lin)
    s.append('vf_prove( &%s( %s ) == %s, "parentheses name the element of the dense layout" );' % (o, ', '.join(ix), adr))
    s.append('vf_prove( &%s%s == %s, "brackets name the element of the dense layout" );' % (o, ''.join('[ %s ]' % i for i in ix), adr))
    s.append('vf_prove( %s.linearIndex( %s ) == %s, "linearIndex is the offset of the element" );' % (o, ', '.join(ix), lin))
    s.append('vf_prove( %s.size() == %s, "size is the product of the extents" );' % (o, ' * '.join(d)))
    s.append('vf_prove( %s.begin() == %s && %s.end() == %s + %s, "begin and end enclose the elements" );' % (o, base, o, base, ' * '.join(d)))
    for k in range(n):
        s.append('vf_prove( %s.size( %d ) == %s, "size( dim ) is the extent" );' % (o, k, d[k]))
    for k in range(1, n):
        s.append('{ auto const & t = %s%s; vf_prove( &t( %s ) == %s, "a slice of any depth names the same element" );' % (o, ''.join('[ %s ]' % i for i in ix[:k]), ', '.join(ix[k:]), adr))
        s.append('vf_prove( t.size() == %s, "size of a slice" );' % ' * '.join(d[k:]))
        for j in range(k, n):
            s.append('vf_prove( t.size( %d ) == %s && t.stride( %d ) == %s, "extent and stride of a slice" );' % (j - k, d[j], j - k, st[j]))
        s.append('}')
    return s


def report(o, n, d, st):
    s = ['vf_prove( %s.size() == %s && %s.empty() == ( %s == 0 ), "the number of elements is the product of the extents" );' % (o, ' * '.join(d), o, ' * '.join(d))]
    for k in range(n):
        s.append('vf_prove( %s.dims()[ %d ] == %s && %s.dimsArray()[ %d ] == %s, "the extents reported are the ones given" );' % (o, k, d[k], o, k, d[k]))
        s.append('vf_prove( %s.strides()[ %d ] == %s && %s.stridesArray()[ %d ] == %s, "the strides are dense in layout order" );' % (o, k, st[k], o, k, st[k]))
    return s


def gen(deep):
    src = [HEAD]
    perms = [p for n in (1, 2, 3, 4) for p in itertools.permutations(range(n))]
    p5 = list(itertools.permutations(range(5)))
    perms += p5 if deep else p5[::17]
    for k, p in enumerate(perms):
        n = len(p)
        tag = ''.join(map(str, p))
        d, ix = ['d%d' % i for i in range(n)], ['i%d' % i for i in range(n)]
        st = dense(p, d)
        ps = ', '.join('long %s' % x for x in d + ix)
        it = 'long'
        arr = 'Array< %s, %d, camp::idx_seq< %s >, %s, %s >'
        A = arr % ('double', n, ', '.join(map(str, p)), it, 'ProbeBuffer')
        al = 'double * const base = a.data();'
        body = ['%s a( %s );' % (A, ', '.join(d))]
        fresh_ = list(body)
        body += report('a', n, d, st)
        body += observe('a', n, d, st, ix)
        src.append('extern "C" void vf_owner_%s( %s ) { %s vf_done( a.data(), %s ); }' % (tag, ps, ' '.join(body), ' * '.join(d)))
        body = fresh_ + ['vf_prove( &a.front() == %s && &a.back() == %s + ( %s - 1 ), "front and back name the first and the last element" );' % ('a.data()', 'a.data()', ' * '.join(d))]
        src.append('extern "C" void vf_ends_%s( %s ) { %s }' % (tag, ps, ' '.join(body)))
        for w, e in (('assign', 'v = w;'), ('assignmove', 'v = std::move( w );')):
            body = fresh_ + ['auto const w0 = a.toView(); std::remove_const_t< decltype( w0 ) > w( w0 ), v; %s' % e] + report('v', n, d, st) + observe('v', n, d, st, ix)
            if n <= 3:
                src.append('extern "C" void vf_%s_%s( %s ) { %s }' % (w, tag, ps, ' '.join(body)))
        for w, e in (('view', 'a.toView()'), ('viewconst', 'a.toViewConst()'), ('slice', 'a.toSlice()'), ('sliceconst', 'a.toSliceConst()')):
            if n == 5 and not deep and w != 'view':
                continue
            b = fresh_ + ['auto const v = %s;' % e] + (report('v', n, d, st) if 'view' in w else ['vf_prove( %s, "stride of a slice" );' % ' && '.join('v.stride( %d ) == %s' % (j, st[j]) for j in range(n))]) + observe('v', n, d, st, ix)
            src.append('extern "C" void vf_%s_%s( %s ) { %s }' % (w, tag, ps, ' '.join(b)))
        # the other constructors and resizing operations
        if n <= 4:
            e = ['e%d' % i for i in range(n)]
            se = dense(p, e)
            pe = ', '.join('long %s' % x for x in d + e)
            ops = [('resize', 'a.resize( %s );' % ', '.join(e), e), ('resizeptr', 'long const dd[ %d ] = { %s }; a.resize( %d, dd );' % (n, ', '.join(e), n), e),
                   ('noinit', 'a.resizeWithoutInitializationOrDestruction( %s );' % ', '.join(e), e),
                   ('copy', '%s b( %s ); a = b;' % (A, ', '.join(e)), e), ('move', '%s b( %s ); a = std::move( b );' % (A, ', '.join(e)), e)]
            for j in range(n):
                f = list(d)
                f[j] = 'e%d' % j
                ops.append(('dim%d' % j, 'a.template resizeDimension< %d >( e%d );' % (j, j), f))
                if n <= 3 and (deep or p[0] == j):
                    ops.append(('default%d' % j, 'a.setSingleParameterResizeIndex( %d ); a.resize( e%d );' % (j, j), f))
                g = list(d)
                g[j] = '0'
                ops.append(('clear%d' % j, 'a.setSingleParameterResizeIndex( %d ); a.clear();' % j, g))
            # an array that was moved from can be used again
            ops.append(('again', '%s b( std::move( a ) ); a.resize( %s );' % (A, ', '.join(e)), e))
            for j in range(n):
                if n <= 3 and p[0] == j:
                    g = ['0'] * n
                    g[j] = 'e%d' % j
                    ops.append(('againdefault%d' % j, '%s b( std::move( a ) ); a.setSingleParameterResizeIndex( %d ); a.resize( e%d );' % (A, j, j), g))
            if n > 1:
                f = list(d)
                f[0], f[n - 1] = 'e0', 'e%d' % (n - 1)
                ops.append(('dims', 'a.template resizeDimension< %d, 0 >( e%d, e0 );' % (n - 1, n - 1), f))
            if n == 4 and not deep:
                ops = ops[:3] if k % 4 == 0 else []
            for w, s, f in ops:
                src.append('extern "C" void vf_op%s_%s( %s ) { %s a( %s ); %s %s }' % (w, tag, pe, A, ', '.join(d), s, ' '.join(report('a', n, f, dense(p, f)))))
            src.append('extern "C" void vf_cctor_%s( %s ) { %s b( %s ); %s a( b ); %s %s c( std::move( b ) ); %s }' % (tag, pe, A, ', '.join(d), A, ' '.join(report('a', n, d, st)), A, ' '.join(report('c', n, d, st))))
            src.append('extern "C" void vf_dctor_%s() { %s a; %s }' % (tag, A, ' '.join(report('a', n, ['0'] * n, dense(p, ['0'] * n)))))
        # other integer types for extents and indices
        if n <= 3:
            B = arr % ('float', n, ', '.join(map(str, p)), 'int', 'ProbeBuffer')
            pi = ', '.join('int %s' % x for x in d + ix)
            src.append('extern "C" void vf_int_%s( %s ) { %s a( %s ); %s }' % (tag, pi, B, ', '.join(d), ' '.join(report('a', n, d, st) + observe('a', n, d, st, ix))))
    return src


def visits():
    src = [HEAD]
    for n in (1, 2, 3):
        for usd in range(-1, n):
            ix = ['i%d' % i for i in range(n)]
            S = 'ArraySlice< double, %d, %d, long >' % (n, usd)
            ss = ['1' if j == usd else 's[ %d ]' % j for j in range(n)]
            lin = ' + '.join('%s * %s' % (i, t) for i, t in zip(ix, ss))
            src.append('extern "C" void vf_strided_%d_%d( double * p, long const * d, long const * s, %s ) { %s v( p, d, s ); vf_prove( &v( %s ) == p + ( %s ), "parentheses on a strided slice" ); vf_prove( &v%s == p + ( %s ), "brackets on a strided slice" ); }' % (
                n, usd + 1, ', '.join('long %s' % i for i in ix), S, ', '.join(ix), lin, ''.join('[ %s ]' % i for i in ix), lin))
            src.append('extern "C" void vf_visit_%d_%d( double * p, long const * d, long const * s ) { forValuesInSlice( %s( p, d, s ), []( double & x ) { vf_visit( &x ); } ); }' % (n, usd + 1, S))
            src.append('extern "C" void vf_visiti_%d_%d( double * p, long const * d, long const * s ) { forValuesInSliceWithIndices( %s( p, d, s ), []( double & x, %s ) { vf_visit%d( &x, %s ); } ); }' % (
                n, usd + 1, S, ', '.join('long %s' % i for i in ix), n, ', '.join(ix)))
            for ud in range(-1, max(n - 1, 1)):
                dst = 'Num & r' if n == 1 else 'Num * r, long const * e, long const * t'
                R = 'r' if n == 1 else 'ArraySlice< Num, %d, %d, long >( r, e, t )' % (n - 1, ud)
                src.append('extern "C" void vf_visits_%d_%d_%d( Num * p, long const * d, long const * s, %s ) { %s sumOverFirstDimension( %s( p, d, s ), %s ); }' % (
                    n, usd + 1, ud + 1, dst, ' '.join('vf_assume( d[ %d ] == e[ %d ] );' % (i, i - 1) for i in range(1, n)), S.replace('double', 'Num const'), R))
                if n == 1 or ud == n - 2:
                    break
    return src


NUM = 'struct Num { double x; Num & operator+=( Num const & o ) { vf_visits( this, &o ); return *this; } Num & operator=( Num const & o ) { vf_visits( nullptr, &o ); return *this; } };\n'
DECL = 'extern "C" { void vf_visits( void const *, void const * ) noexcept; void vf_done( void const *, long ) noexcept; void vf_visit( void const * ) noexcept; void vf_visit1( void const *, long ) noexcept; void vf_visit2( void const *, long, long ) noexcept; void vf_visit3( void const *, long, long, long ) noexcept; }\n'


def chunks(src, n):
    for i in range(1, len(src), n):
        yield src[0] + DECL + NUM + '\n'.join(src[i:i + n])


def h_done(ip, fn, st, ins, a):
    p, n = a
    b, off = ip.base_of(p)
    if b is None:
        ip.rep.check(st.facts.proves(le(n, 0)), 'the allocation holds every element', 'no storage although the extents are %s' % n, short(ins.get('loc')))
    else:
        by = st.info.get(('bytes', b))
        ip.rep.check(by is not None and st.facts.proves(ge(by, n * 8)), 'the allocation holds every element', 'storage of %s bytes for %s elements' % (by, n), short(ins.get('loc')))


def h_visit(ip, fn, st, ins, a):
    st.events.append(('visit', a, ins))


def run(ctx):
    hs = [(r'^vf_done$', h_done), (r'^vf_visit[\ds]?$', h_visit)] + probe.HANDLERS + lifecycle.HANDLERS

    def setup(ip, st, args):
        # extents are not negative (the constructors reject others)
        pass

    def fin(ip, f, outs, rep):
        if '_visit' not in f:
            return
        n, usd = [int(x) for x in f.split('_')[2:4]]
        usd -= 1
        sums = 'visits' in f
        ud = int(f.split('_')[4]) - 1 if sums else 0
        loc = 'src/sliceHelpers.hpp: ' + ('sumOverFirstDimension' if sums else 'forValuesInSlice' + ('WithIndices' if 'visiti' in f else ''))
        d = [Poly.of(atom('init', '', Poly.of(atom('base', 'd')) + 8 * j, 'i64')) for j in range(n)]
        s = [const(1) if j == usd else Poly.of(atom('init', '', Poly.of(atom('base', 's')) + 8 * j, 'i64')) for j in range(n)]
        lab = 'iteration visits each index tuple once with its element'
        full = [0]

        def walk(evs, j, ks, facts):
            """what is wrong with the events of the loops over dimensions j.. or None"""
            evs = [x for x in evs if x[0] in ('visit', 'loop')]
            if j == n:
                if len(evs) != 1 or evs[0][0] != 'visit':
                    return 'not exactly one visit per index tuple'
                a = evs[0][1]
                adr = Poly.of(atom('base', 'p')) + 8 * sum(k * t for k, t in zip(ks, s))
                if sums:
                    want = Poly.of(atom('base', 'r')) + 8 * sum((k * (const(1) if i == ud else Poly.of(atom('init', '', Poly.of(atom('base', 't')) + 8 * i, 'i64'))) for i, k in enumerate(ks[1:])), const(0))
                    if a[0] != want or a[1] != adr:
                        return 'index tuple adds %s to %s, not %s to %s' % (a[1], a[0], adr, want)
                    full[0] += 1
                    return None
                if a[0] != adr:
                    return 'index tuple visits %s, not %s' % (a[0], adr)
                for i, x in enumerate(a[1:]):
                    if x != ks[i]:
                        return 'index %d passed is %s' % (i, x)
                full[0] += 1
                return None
            if not evs:
                if any(facts.proves(le(x, 0)) for x in d[j:]):
                    return None
                return 'nothing is visited although no extent is known to be zero'
            if len(evs) != 1 or evs[0][0] != 'loop':
                return 'not one loop per dimension'
            _, kid, N, body = evs[0]
            if not facts.proves(eq(N, d[j])):
                return 'dimension %d is visited %s times instead of %s' % (j, N, d[j])
            for e, g in body:
                f2 = facts.copy()
                for x in g:
                    f2.add(x)
                w = walk(e, j + 1, ks + [Poly.of(Atom.byid[kid])], f2)
                if w:
                    return w
            return None
        for kind, st, v in outs:
            if kind == 'error' and sums and n > 2:
                continue    # the check of the extents, one of several dimensions
            if kind != 'ret':
                rep.check(False, lab, 'ends in ' + kind, loc)
                continue
            w = walk(st.events, 0, [], st.facts)
            rep.check(w is None, lab, w, loc)
        rep.check(full[0], lab, 'no path visits anything', loc)
    texts = list(chunks(gen(ctx.tier == 'thorough'), 60))
    build.prefetch([('c03', ('NDEBUG',), tuple(UNROLL), (), t) for t in texts] + [('c03v', ('NDEBUG',), (), (), next(chunks(visits(), 1000)))])
    for t in texts:
        ctx.drive('c03', text=t, handlers=hs, lvir_args=UNROLL)
    ctx.drive('c03v', text=next(chunks(visits(), 1000)), handlers=hs, finish=fin)
