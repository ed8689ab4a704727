"""Printed output: every value once, in index order, inside braces that mirror the dimensions."""
import re
from engine import build, lifecycle, probe
from engine.interp import short, Unsupported
from engine.terms import *

TECHNIQUE = 'abstract interpretation of LLVM IR: the trace of what is written to the stream, with loops as repeated segments, is parsed against the grammar of the container'
LEVEL_NOTE = '''Every extent, content and stride, including zero. Slices of rank one to three (four in the thorough tier) with every position of the unit stride, views and arrays, sorted arrays, arrays of arrays, compressed matrices and their views, plain C arrays of
one and two dimensions, and the matrix listing that can run in a kernel. How a single value is formatted, and the state of the stream, are the standard library's.'''
EXPLANATION = '''Each operator is followed along every path; what is written (characters, values by address, integers by value) is recorded in order, a loop as a segment that depends on its iteration number. The trace has to parse as the
container: an opening brace, the items of each dimension with their separators, a closing brace; the k-th item of each dimension is the one of index k and their number is the extent, by linear arithmetic. A value printed for an index tuple is the
one at the address of that tuple.'''
ASSUMPTIONS = ['stream insertion writes what it is given']

LAB_V = 'every value is printed once, in index order'
LAB_E = 'the stream returned is the one written to'

HEAD = '''#include "output.hpp"
#include "StackBuffer.hpp"
#include "probe.hpp"
using namespace LvArray;
struct Val { double x; };
std::ostream & operator<<( std::ostream &, Val const & );
extern "C" { void vf_shape( void const *, long n, long d0, long d1, long d2, long d3, long s0, long s1, long s2, long s3 ) noexcept;
void vf_table( void const * values, long n, long const * offsets, long const * sizes ) noexcept; void vf_cols( long const * cols ) noexcept; void vf_begin( std::ostream & ) noexcept; void vf_result( std::ostream & ) noexcept; }
namespace LvArray { using ::operator<<; }
#define PRINT( X ) vf_begin( os ); vf_result( os << X );
'''
OPAQUE = ('--opaque', r'^std::(basic_ostream<.*>& std::)?operator<<|std::basic_ostream<.*>::(operator<<|put|write|flush|_M_insert)|std::(basic_ostream<.*>& )?std::(endl|flush)|^std::basic_ostream<.*>& std::')


def shape(n, ptr, d, s):
    z = lambda x: ', '.join(list(x) + ['0'] * (4 - n))
    return 'vf_shape( %s, %d, %s, %s );' % (ptr, n, z(d), z(s))


def gen(deep):
    src = []
    for n in (1, 2, 3, 4) if deep else (1, 2, 3):
        for usd in range(-1, n):
            for T in ('Val', 'Val const'):
                if T == 'Val' and usd != n - 1:
                    continue
                S = 'ArraySlice< %s, %d, %d, long >' % (T, n, usd)
                ss = ['1' if j == usd else 's[ %d ]' % j for j in range(n)]
                dd = ['d[ %d ]' % j for j in range(n)]
                src.append('extern "C" void vf_slice%s_%d_%d( std::ostream & os, Val * p, long const * d, long const * s ) { %s %s PRINT( (%s( p, d, s )) ) }' % (
                    'c' if 'const' in T else '', n, usd + 1, shape(n, 'p', dd, ss), ' '.join('vf_assume( %s >= 0 );' % x for x in dd), S))
        vd = lambda o: (['%s.dims()[ %d ]' % (o, j) for j in range(n)], ['%s.strides()[ %d ]' % (o, j) for j in range(n)])
        for nm, ty in (('view', 'ArrayView< Val, %d, %d, long, ProbeBuffer >' % (n, n - 1)), ('viewc', 'ArrayView< Val const, %d, %d, long, ProbeBuffer >' % (n, n - 1)),
                       ('array', 'Array< Val, %d, camp::idx_seq< %s >, long, ProbeBuffer >' % (n, ', '.join(map(str, range(n)))))):
            d, s = vd('v')
            s[n - 1] = '1'
            src.append('extern "C" void vf_%s_%d( std::ostream & os, %s const & v ) { %s %s PRINT( v ) }' % (nm, n, ty, shape(n, 'v.data()', d, s), ' '.join('vf_assume( %s >= 0 );' % x for x in d)))
    for nm, ty in (('sortedview', 'SortedArrayView< Val const, long, ProbeBuffer >'), ('sorted', 'SortedArray< Val, long, ProbeBuffer >')):
        src.append('extern "C" void vf_%s( std::ostream & os, %s const & v ) { vf_assume( v.size() >= 0 ); %s PRINT( v ) }' % (nm, ty, shape(1, 'v.data()', ['v.size()'], ['1'])))
    for nm, ty in (('rowsview', 'ArrayOfArraysView< Val const, long const, true, ProbeBuffer >'), ('rows', 'ArrayOfArrays< Val, long, ProbeBuffer >')):
        c = '' if nm == 'rowsview' else '.toViewConst()'
        src.append('extern "C" void vf_%s( std::ostream & os, %s const & v ) { auto const & w = v%s; vf_assume( w.size() >= 0 ); vf_table( w.getValues(), w.size(), w.getOffsets(), w.getSizes() ); PRINT( v ) }' % (nm, ty, c))
    src.append('extern "C" void vf_matrix( std::ostream & os, CRSMatrixView< Val const, long const, long const, ProbeBuffer > const & v ) { vf_assume( v.numRows() >= 0 ); '
               'vf_table( v.getEntries(), v.numRows(), v.getOffsets(), v.getSizes() ); vf_cols( v.getColumns() ); PRINT( v ) }')
    src.append('extern "C" void vf_print( std::ostream & os, CRSMatrixView< double const, long const, long const, ProbeBuffer > const & v ) { vf_assume( v.numRows() >= 0 ); '
               'vf_table( v.getEntries(), v.numRows(), v.getOffsets(), v.getSizes() ); vf_cols( v.getColumns() ); vf_begin( os ); LvArray::print< RAJA::loop_exec >( v ); vf_result( os ); }')
    for k in (1, 2, 5):
        src.append('extern "C" void vf_carray_%d( std::ostream & os, Val const ( &v )[ %d ] ) { %s PRINT( v ) }' % (k, k, shape(1, '&v[ 0 ]', [str(k)], ['1'])))
        src.append('extern "C" void vf_cmatrix_%d( std::ostream & os, Val const ( &v )[ 3 ][ %d ] ) { %s PRINT( v ) }' % (k, k, shape(2, '&v[ 0 ][ 0 ]', ['3', str(k)], [str(k), '1'])))
    return HEAD + '\n'.join(src)


def initv(p):
    return Poly.of(atom('init', '', p, 'i64'))


def h_shape(ip, fn, st, ins, a):
    n = int(a[1].cval())
    st.info['shape'] = ('dense', a[0], tuple(a[2:2 + n]), tuple(a[6:6 + n]))


def h_rows(ip, fn, st, ins, a):
    st.info['shape'] = ('rows', a[0], a[1], a[2], a[3], None)


def h_cols(ip, fn, st, ins, a):
    st.info['shape'] = st.info['shape'][:5] + (a[0],)


def h_begin(ip, fn, st, ins, a):
    st.info['os'] = a[0]
    st.info['from'] = len(st.events)


def h_result(ip, fn, st, ins, a):
    st.info['done'] = True
    ip.rep.check(st.facts.proves(eq(a[0], st.info['os'])), LAB_E, 'the operator returns %s' % a[0], short(ins.get('loc')))


def literal(ip, p):
    b, off = ip.base_of(p)
    g = ip.m.globals.get(Atom.byid[b].name[1:]) if b is not None and Atom.byid[b].name.startswith('@') else None
    if g is None or 'str' not in g or not off.isconst():
        raise Unsupported('text that is not a literal')
    return g['str'][int(off.cval()):].split('\0')[0]


def h_ins(ip, fn, st, ins, a):
    """an insertion into the stream"""
    dn = ins['dn']
    if 'os' not in st.info:
        raise Unsupported('insertion before the operation')
    if not st.facts.proves(eq(a[0], st.info['os'])) and 'listing' not in st.info:
        ip.rep.fail(LAB_V, 'something is written to another stream', short(ins.get('loc')))
    par = dn[dn.rindex('(') + 1:] if '(' in dn else ''
    if 'Val const&' in dn:
        st.events.append(('val', a[1], ins))
    elif 'char const*' in dn:
        o = ins['args'][1]
        s = lifecycle.str_arg(ip, o)
        if s == '?':
            s = literal(ip, a[1])
        if len(a) > 2 and a[2].isconst():
            s = s[:int(a[2].cval())]
        st.events.append(('txt', s, ins))
    elif 'endl' in dn or 'flush' in dn:
        st.events.append(('txt', '\n', ins))
    elif 'operator<<' in dn and '(*)' in dn:
        st.events.append(('txt', '\n', ins))        # a manipulator
    elif par.startswith(('char)', 'signed char)', 'unsigned char)')) or ', char)' in dn or '::put(' in dn:
        if not a[1].isconst():
            raise Unsupported('a character that is not a literal')
        st.events.append(('txt', chr(int(a[1].cval()) & 255), ins))
    elif par.rstrip(')') in ('int', 'long', 'long long', 'unsigned int', 'unsigned long', 'unsigned long long', 'short', 'unsigned short', 'bool'):
        st.events.append(('int', a[1], ins))
    else:
        raise Unsupported('insertion by ' + dn)
    if ins['ty'] != 'void':
        st.env[ins['id']] = a[0]


def h_nl(ip, fn, st, ins, a):
    st.events.append(('txt', '\n', ins))
    if ins['ty'] != 'void':
        st.env[ins['id']] = a[0]


def h_printf(ip, fn, st, ins, a):
    """a format string and what it formats"""
    s = lifecycle.str_arg(ip, ins['args'][0])
    st.info['listing'] = True
    if s == '?' or 'os' not in st.info:
        raise Unsupported('a format that is not a literal')
    k = 1
    for m in re.finditer(r'%%|%[-+ #0-9.*]*(?:hh|h|ll|l|z|j|t|L)?([a-zA-Z])|[^%]+', s):
        if m.group(1):
            if k >= len(a) or m.group(1) not in 'diugfeG' or '*' in m.group(0):
                raise Unsupported('format %r' % s)
            st.events.append(('int' if m.group(1) in 'diu' else 'val', a[k], ins))
            k += 1
        else:
            st.events.append(('txt', m.group(0), ins))
    if ins['ty'] != 'void':
        st.env[ins['id']] = ip.result(st, ins, 'n')


class Bad(Exception):
    def __init__(self, why, ins=None):
        super().__init__(why)
        self.ins = ins


def tokens(evs):
    out = []
    for e in evs:
        if e[0] == 'txt':
            out += [(c, None, e[2]) for c in e[1]]
        elif e[0] in ('val', 'int'):
            out.append((e[0], e[1], e[2]))
        elif e[0] == 'loop':
            if any(writes(b) for b, g in e[3]):
                out.append(('loop', e, None))
        elif e[0] == 'gloop' and any(writes(p[0]) for p in e[1]):
            raise Unsupported('a loop that writes is not followed')
    return out


def once(evs, fx):
    """( events, facts ) with the loop that stands for the kernel opened"""
    for i, e in enumerate(evs):
        if e[0] == 'loop' and e[2] == const(1) and any(x[0] == 'loop' for b, g in e[3] for x in b):
            z = {e[1]: const(0)}
            for b, g in e[3]:
                f = fx.copy()
                for x in g:
                    f.add(x.subst(z))
                if not f.contradictory():
                    yield list(evs[:i]) + list(b) + list(evs[i + 1:]), f
            return
    yield evs, fx


def writes(evs):
    return any(e[0] in ('txt', 'val', 'int') or e[0] == 'loop' and any(writes(b) for b, g in e[3]) or e[0] == 'gloop' and any(writes(p[0]) for p in e[1]) for e in evs)


class Cur:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, space=True):
        while space and self.i < len(self.t) and self.t[self.i][0] in (' ', '\t', '\n'):
            self.i += 1
        return self.t[self.i] if self.i < len(self.t) else ('end', None, None)

    def take(self):
        r = self.peek()
        self.i += 1
        return r

    def want(self, c):
        t = self.take()
        if t[0] != c:
            raise Bad('%s is written where %s is expected' % (show(t), repr(c)), t[2])


def show(t):
    return {'val': 'a value', 'int': 'an integer', 'loop': 'a repeated segment', 'end': 'nothing more'}.get(t[0], repr(t[0]))


def with_guards(fx, g, kid, N):
    f = fx.copy()
    for x in g:
        f.add(x)
    k = Poly.of(Atom.byid[kid])
    f.add(ge(k, 0))
    f.add(le(k, N - 1))
    return f


def sequence(c, fx, size, item, trailing):
    """items 0..size-1 up to the closing brace; commas between them (or after each, where that is the form)"""
    cur, comma = const(0), False        # comma: a separator was written since the last item
    while True:
        t = c.peek()
        if t[0] == ',':
            if comma or fx.proves(le(cur, 0)):
                raise Bad('a separator without a value before it', t[2])
            comma = True
            c.take()
        elif t[0] == '}':
            if not fx.proves(eq(cur, size)):
                raise Bad('%s items are printed of %s' % (cur, size), t[2])
            if comma and not trailing:
                raise Bad('a separator without a value after it', t[2])
            c.take()
            return
        elif t[0] == 'loop':
            c.take()
            _, kid, N, body = t[1]
            k = Poly.of(Atom.byid[kid])
            if not fx.proves(ge(N, 0)):
                raise Unsupported('a count that may be negative')
            style = set()
            for evs, g in body:
                f = with_guards(fx, g, kid, N)
                if f.contradictory():
                    continue
                b = Cur(tokens(evs))
                idx = cur + k
                pre = post = False
                if b.peek()[0] == ',':
                    b.take()
                    pre = True
                if b.peek()[0] == 'end':
                    raise Bad('a pass that prints nothing')
                item(b, f, idx)
                if b.peek()[0] == ',':
                    post = True
                    b.take()
                if b.peek()[0] != 'end':
                    raise Bad('%s follows an item' % show(b.peek()), b.peek()[2])
                # where is a separator: known at the first pass, between passes, at the last
                first, last = f.proves(eq(idx, 0)), f.proves(eq(idx, size - 1))
                nfirst, nlast = f.proves(ge(idx, 1)), f.proves(le(idx, size - 2))
                if pre and post:
                    raise Bad('two separators around one item')
                if pre:
                    if not nfirst and not (f.proves(ge(k, 1)) or f.proves(ge(cur, 1))):
                        raise Bad('a separator before the first item')
                    style.add('pre')
                elif post:
                    if not trailing and not nlast:
                        raise Bad('a separator after the last item')
                    style.add('post')
                elif first and last:
                    pass
                elif first:
                    style.add('pre')
                elif last:
                    style.add('post')
                elif f.proves(eq(k, 0)) and comma:
                    style.add('pre')
                else:
                    raise Bad('no separator between two items')
            if len(style) > 1:
                raise Bad('separators are not placed alike')
            cur = cur + N
            comma = 'post' in style and (trailing or not fx.proves(eq(cur, size)))
        elif t[0] in ('val', 'int', '{'):
            if not comma and not fx.proves(le(cur, 0)):
                raise Bad('no separator between two items', t[2])
            item(c, fx, cur)
            comma = False
            cur = cur + 1
        else:
            raise Bad('%s is written inside the braces' % show(t), t[2])


def value(c, fx, adr):
    t = c.take()
    if t[0] != 'val':
        raise Bad('%s is written where a value is expected' % show(t), t[2])
    if t[1] != adr and not fx.proves(eq(t[1], adr)):
        raise Bad('the value at %s is printed in place of the one at %s' % (t[1], adr), t[2])


def dense(c, fx, sh, j, off):
    _, p, d, s = sh
    if j == len(d):
        return value(c, fx, p + off)
    c.want('{')
    sequence(c, fx, d[j], lambda b, f, k: dense(b, f, sh, j + 1, off + k * s[j] * 8), False)


def word(c, text):
    """letters, then a colon or nothing"""
    got = ''
    while c.peek(not got)[0] not in ('val', 'int', 'loop', 'end', '{', '}', ',', ' ', '\t', '\n'):
        got += c.take()[0]
    if got and got[-1] != ':' and text and text[-1] == ':':
        raise Bad('%r is written where %r is expected' % (got, text))
    return got


def lines(c, fx, sh, row):
    """the rows, each with its number and its values"""
    _, p, n, off, size, cols = sh
    c.want('{')
    cur = const(0)

    def one(b, f, i):
        word(b, '')
        t = b.take()
        if t[0] != 'int' or not f.proves(eq(t[1], i)):
            raise Bad('%s is written where the number of the row is expected' % (show(t) if t[0] != 'int' else t[1]), t[2])
        o, sz = initv(off + 8 * i), initv(size + 8 * i)
        f = f.copy()
        f.add(ge(sz, 0))
        if cols is not None:
            word(b, '')
            b.want('{')

            def col(x, g, k):
                t = x.take()
                if t[0] != 'int' or t[1] != initv(cols + 8 * (o + k)) and not g.proves(eq(t[1], initv(cols + 8 * (o + k)))):
                    raise Bad('%s is printed in place of a column' % (t[1] if t[0] == 'int' else show(t)), t[2])
            sequence(b, f, sz, col, False)
            word(b, '')
        b.want('{')
        sequence(b, f, sz, lambda x, g, k: value(x, g, p + 8 * (o + k)), cols is None)
    while True:
        t = c.peek()
        if t[0] == '}':
            if not fx.proves(eq(cur, n)):
                raise Bad('%s rows are printed of %s' % (cur, n), t[2])
            c.take()
            return
        if t[0] == 'loop':
            c.take()
            _, kid, N, body = t[1]
            for evs, g in body:
                f = with_guards(fx, g, kid, N)
                if f.contradictory():
                    continue
                b = Cur(tokens(evs))
                one(b, f, cur + Poly.of(Atom.byid[kid]))
                if b.peek()[0] != 'end':
                    raise Bad('%s follows a row' % show(b.peek()), b.peek()[2])
            cur = cur + N
        elif t[0] == 'end':
            raise Bad('the closing brace is missing')
        else:
            one(c, fx, cur)
            cur = cur + 1


class Bare(Cur):
    """the numbers only"""

    def peek(self, space=True):
        while self.i < len(self.t) and self.t[self.i][0] not in ('val', 'int', 'loop'):
            self.i += 1
        return self.t[self.i] if self.i < len(self.t) else ('end', None, None)


def repeat(c, fx, size, item):
    cur = const(0)
    while not fx.proves(eq(cur, size)):
        t = c.peek()
        if t[0] == 'loop':
            c.take()
            _, kid, N, body = t[1]
            for evs, g in body:
                f = with_guards(fx, g, kid, N)
                if not f.contradictory():
                    b = Bare(tokens(evs))
                    item(b, f, cur + Poly.of(Atom.byid[kid]))
                    if b.peek()[0] != 'end':
                        raise Bad('%s more than expected' % show(b.peek()), b.peek()[2])
            cur = cur + N
        elif t[0] == 'end' or not fx.proves(lt(cur, size)):
            raise Bad('%s entries are listed of %s' % (cur, size), t[2])
        else:
            item(c, fx, cur)
            cur = cur + 1


def listing(c, fx, sh):
    _, p, n, off, size, cols = sh

    def num(c, fx, v, kind='int'):
        t = c.take()
        if t[0] != kind or t[1] != v and not fx.proves(eq(t[1], v)):
            raise Bad('%s is listed in place of %s' % (t[1] if t[0] != 'loop' else show(t), v), t[2])

    def row(c, fx, i):
        o, sz = initv(off + 8 * i), initv(size + 8 * i)
        fx = fx.copy()
        fx.add(ge(sz, 0))
        num(c, fx, sz)

        def entry(c, fx, k):
            num(c, fx, i)
            num(c, fx, initv(cols + 8 * (o + k)))
            num(c, fx, Poly.of(atom('init', '', p + 8 * (o + k), 'double')), 'val')
        repeat(c, fx, sz, entry)
    num(c, fx, n)
    repeat(c, fx, n, lambda c, f, k: num(c, f, initv(size + 8 * k)))
    repeat(c, fx, n + 1, lambda c, f, k: num(c, f, initv(off + 8 * k)))
    repeat(c, fx, n, row)


def loc_of(f):
    return 'src/output.hpp: %s (%s)' % ('print' if 'print' in f else 'operator<<', f[3:])


def fin(ip, f, outs, rep):
    n = 0
    for kind, st, v in outs:
        if kind != 'ret' or 'done' not in st.info:
            rep.check(kind == 'ret', LAB_V, 'ends in ' + kind, loc_of(f))
            continue
        n += 1
        sh = st.info['shape']
        evs = st.events[st.info['from']:]
        c = Cur(tokens(evs))
        try:
            if 'print' in f:
                for x, fx in once(evs, st.facts):
                    c = Bare(tokens(x))
                    listing(c, fx, sh)
            elif sh[0] == 'dense':
                dense(c, st.facts, sh, 0, const(0))
            else:
                lines(c, st.facts, sh, None)
            if c.peek()[0] != 'end':
                raise Bad('%s follows the container' % show(c.peek()), c.peek()[2])
            rep.ok(LAB_V)
        except Bad as e:
            w = short(e.ins.get('loc')) if e.ins is not None else loc_of(f)
            rep.fail(LAB_V, '%s: %s' % (f[3:], e), w, lifecycle.trailtext(st))
    rep.check(n, LAB_V, 'no path prints anything', loc_of(f))


def run(ctx):
    hs = [(r'^printf$', h_printf), (r'^std::basic_ostream.*& std::endl|^std::ostream::flush', h_nl), (r'^vf_shape$', h_shape), (r'^vf_table$', h_rows), (r'^vf_cols$', h_cols), (r'^vf_begin$', h_begin), (r'^vf_result$', h_result),
          (r'^(std::.*operator<<|operator<<\(std::.*Val const&|std::.*(endl|flush|__ostream_insert)|std::basic_ostream.*::(put|write|_M_insert))', h_ins)] + probe.HANDLERS + lifecycle.HANDLERS
    ctx.drive('c30', text=gen(ctx.tier == 'thorough'), handlers=hs, finish=fin, lvir_args=OPAQUE)
