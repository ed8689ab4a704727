"""Bounds checked builds: every position is validated before anything is touched."""
import itertools
import re
from engine import build, lifecycle, probe
from engine.interp import short, deep_atoms
from engine.terms import *

TECHNIQUE = 'abstract interpretation of LLVM IR of checked builds: path-condition entailment (range proven at every access and return, contradicted at every error)'
LEVEL_NOTE = '''Every path of each operation with symbolic positions, sizes, offsets and extents, in the configuration -DNDEBUG -DLVARRAY_BOUNDS_CHECK. A path is followed until its position is known to be in range (what an
operation does afterwards is the business of other properties). Index arithmetic over the integers.'''
EXPLANATION = '''For each accessor and each operation that takes a position, the driver states the range the documentation gives for each position. On each path of the compiled operation: until the path condition entails that range, no
value, column, entry is read or written, nothing is allocated or released and nothing of the object is written, and sizes and offsets are read only inside their own arrays; the operation does not return before; and a path that
ends in the error mechanism has a condition that contradicts the range.'''
ASSUMPTIONS = ['index arithmetic does not overflow', 'the container is in a consistent state: 0 <= size <= capacity of each inner array, offsets non-negative']

HEAD = '''#include "Array.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "probe.hpp"
using namespace LvArray;
extern "C" {
void vf_mark( void const * obj, long bytes ) noexcept;          // the operation starts: obj is the container
void vf_range( bool ) noexcept;                                 // one condition of the documented range
void vf_meta( void const * p, long bytes ) noexcept;            // sizes or offsets: may be read inside [p, p + bytes)
void vf_values( void const * p ) noexcept;                      // values, columns, entries
long vf_cell( long const * p ) noexcept;                        // *p
void vf_use( void const * ) noexcept;
void vf_limit( void const * p, long lo, long hi, long size ) noexcept; // of the values at p only [lo, hi) may be touched; an operation for which that is too little reports an error
void vf_each( int const * p, long n, long bound ) noexcept;    // 0 <= p[ k ] < bound for every k < n
}
#define B ProbeBuffer
'''

AOA = '''  B< long const > bo( off, capo ); B< long > bs( sz, caps ); B< %s > bv( val, capv );
  vf_assume( n >= 0 ); vf_assume( caps >= n ); vf_assume( capo > n ); vf_assume( capo > caps ); vf_assume( capv >= vf_cell( off + n ) );
  vf_meta( off, ( n + 1 ) * 8 ); vf_meta( sz, n * 8 ); vf_values( val );
'''
INV = '  vf_assume( vf_cell( off + i ) >= 0 ); vf_assume( vf_cell( sz + i ) >= 0 ); vf_assume( vf_cell( sz + i ) <= vf_cell( off + i + 1 ) - vf_cell( off + i ) ); vf_assume( vf_cell( off + i + 1 ) <= vf_cell( off + n ) );\n'
PAR = 'long n, long const * off, long * sz, %s * val, long capo, long caps, long capv'
IN_I = ['i >= 0', 'i < n']
ROW = 'vf_cell( sz + i )'
ROOM = 'vf_assume( vf_cell( sz + i ) + 1 <= vf_cell( off + i + 1 ) - vf_cell( off + i ) ); '   # a view cannot grow a row
CAP = '( vf_cell( off + i + 1 ) - vf_cell( off + i ) )'


def fn(name, params, setup, obj, ranges, op):
    if ranges[-1] == 'EACH':
        ranges, op = ranges[:-1], 'vf_each( cols, m, nc ); ' + op
    return 'extern "C" void vf_%s( %s ) {\n%s  vf_mark( &%s, sizeof( %s ) );\n%s  %s }' % (
        name, params, setup, obj, obj, ''.join('  vf_range( %s );\n' % r for r in ranges) + '', op)


def gen():
    src = []
    # multi-dimensional arrays: every rank, view and slice, brackets, parentheses, linearIndex, size( dim ), stride( dim )
    for nd in (1, 2, 3, 4):
        for perm in itertools.permutations(range(nd)):
            if nd == 4 and perm not in ((0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2)):
                continue
            usd = perm[-1]
            tag = ''.join(map(str, perm))
            d, s, ix = (['%s%d' % (c, k) for k in range(nd)] for c in 'dsi')
            ps = ', '.join('long %s' % x for x in d + s + ix) + ', int * val, long cap'
            su = '''  typeManipulation::CArray< long, %d > const dd{ %s }; typeManipulation::CArray< long, %d > const ss{ %s };
  ArrayView< int, %d, %d, long, B > const v( dd, ss, 0, B< int >( val, cap ) ); vf_values( val );
''' % (nd, ', '.join(d), nd, ', '.join(s), nd, usd)
            sl = '''  long const dd[ %d ] = { %s }; long const ss[ %d ] = { %s }; vf_use( dd ); vf_use( ss ); for( int k = 0; k < 0; ++k ) {}
  ArraySlice< int, %d, %d, long > const v( val, dd, ss ); vf_values( val );
''' % (nd, ', '.join(d), nd, ', '.join(s), nd, usd)
            full = [c for a, b in zip(ix, d) for c in ('%s >= 0' % a, '%s < %s' % (a, b))]
            for kind, setup in (('view', su), ('slice', sl)):
                src.append(fn('%s_paren_%s' % (kind, tag), ps, setup, 'v', full, 'v( %s ) = 1;' % ', '.join(ix)))
                src.append(fn('%s_lin_%s' % (kind, tag), ps, setup, 'v', full, 'vf_use( (void *) v.linearIndex( %s ) );' % ', '.join(ix)))
                src.append(fn('%s_brack_%s' % (kind, tag), ps, setup, 'v', full, 'v%s = 1;' % ''.join('[ %s ]' % i for i in ix)))
                if nd > 1:
                    src.append(fn('%s_sub_%s' % (kind, tag), ps, setup, 'v', full[:2], 'auto const & t = v[ i0 ]; vf_use( &t );'))
                src.append(fn('%s_size_%s' % (kind, tag), ps + ', int dim', setup, 'v', ['dim >= 0', 'dim < %d' % nd], 'vf_use( (void *) v.size( dim ) );'))
            src.append(fn('slice_stride_%s' % tag, ps + ', int dim', sl, 'v', ['dim >= 0', 'dim < %d' % nd], 'vf_use( (void *) v.stride( dim ) );'))
            # narrower and unsigned index arguments
            if nd <= 2:
                p2 = ps.replace('long i', 'int i')
                src.append(fn('view_paren_int_%s' % tag, p2, su, 'v', full, 'v( %s ) = 1;' % ', '.join(ix)))
    # one-dimensional arrays: positions of insertion and removal
    p1 = 'long n, int * val, long cap, long i, int const & x, int const * first, long m'
    a1 = '''  using A = Array< int, 1, camp::idx_seq< 0 >, long, B >;
  typeManipulation::CArray< long, 1 > const dd{ n }; typeManipulation::CArray< long, 1 > const ss{ 1 };
  ArrayView< int, 1, 0, long, B > v( dd, ss, 0, B< int >( val, cap ) ); A & a = reinterpret_cast< A & >( v ); vf_values( val );
  vf_assume( n >= 0 ); vf_assume( cap >= n ); vf_assume( m >= 0 );
'''
    for nm, op, rg in (('emplace', 'a.emplace( i, x );', ['i >= 0', 'i <= n']), ('insert', 'a.insert( i, first, first + m );', ['i >= 0', 'i <= n']), ('erase', 'a.erase( i );', ['i >= 0', 'i < n'])):
        src.append(fn('array_' + nm, p1, a1, 'v', rg, op))
    # the buffer and array algorithms themselves
    bm = '  B< int > b( val, cap ); vf_values( val ); vf_assume( n >= 0 ); vf_assume( cap >= n ); vf_assume( m >= 0 );\n'
    for nm, op, rg in (('bufemplace', 'bufferManipulation::emplace( b, n, i, x );', ['i >= 0', 'i <= n']), ('bufinsert', 'bufferManipulation::insert( b, n, i, first, first + m );', ['i >= 0', 'i <= n']),
                       ('buferase', 'bufferManipulation::erase( b, n, i );', ['i >= 0', 'i < n'])):
        src.append(fn(nm, p1, bm, 'b', rg, op))
    am = '  int b = 0; vf_values( val ); vf_assume( n >= 0 ); vf_assume( m >= 1 );\n'
    for nm, op, rg in (('amemplace', 'arrayManipulation::emplace( val, n, i, x );', ['i >= 0', 'i <= n']), ('aminsert', 'arrayManipulation::insert( val, n, i, first, m );', ['i >= 0', 'i <= n']),
                       ('amerase', 'arrayManipulation::erase( val, n, i, m );', ['i >= 0', 'i + m <= n']), ('amshiftup', 'arrayManipulation::shiftUp( val, n, i, m );', ['i >= 0', 'i <= n']),
                       ('amshiftdown', 'arrayManipulation::shiftDown( val, n, i, m );', ['i >= 0', 'i <= n'])):
        src.append(fn(nm, p1, am, 'b', rg, op))
    # sorted arrays
    src += [fn('sorted_%s' % k, 'long n, int const * val, long cap, long i', '  SortedArrayView< int const, long, B > const v( n, B< int const >( val, cap ) ); vf_values( val );\n', 'v', IN_I, 'vf_use( &v%s );' % e)
            for k, e in (('brack', '[ i ]'), ('paren', '( i )'))]
    # arrays of arrays
    par = PAR % 'int' + ', long i, long j, int const & x, int const * first, long m'
    su = AOA % 'int' + INV + '  vf_assume( m >= 1 );\n  ArrayOfArraysView< int, long const, false, B > v( n, bo, bs, bv );\n'
    own = su + '  using O = ArrayOfArrays< int, long, B >; O & o = reinterpret_cast< O & >( v );\n'
    el = IN_I + ['j >= 0', 'j < ' + ROW]
    ins = IN_I + ['j >= 0', 'j <= ' + ROW]
    room1, roomm = [ROW + ' + 1 <= ' + CAP], [ROW + ' + m <= ' + CAP]
    acc = [('size', 'vf_use( (void *) %s.sizeOfArray( i ) );', IN_I), ('cap', 'vf_use( (void *) %s.capacityOfArray( i ) );', IN_I), ('brack', 'auto const & t = %s[ i ]; vf_use( &t );', IN_I),
           ('brackj', '%s[ i ][ j ] = 1;', el), ('paren', '%s( i, j ) = 1;', el), ('eraseFrom', '%s.eraseFromArray( i, j );', el), ('eraseRange', '%s.eraseFromArray( i, j, m );', IN_I + ['j >= 0', 'j + m <= ' + ROW])]
    src += [fn('aoaview_' + k, par, su, 'v', r, e % 'v') for k, e, r in acc + [
        ('emplaceBack', '%s.emplaceBack( i, x );', IN_I + room1), ('append', '%s.appendToArray( i, first, first + m );', IN_I + roomm),
        ('emplace', '%s.emplace( i, j, x );', ins + room1), ('insert', '%s.insertIntoArray( i, j, first, first + m );', ins + roomm)]]
    src += [fn('aoa_' + k, par, own, 'v', r, e % 'o') for k, e, r in acc + [
        ('emplaceBack', '%s.emplaceBack( i, x );', IN_I), ('append', '%s.appendToArray( i, first, first + m );', IN_I),
        ('emplace', '%s.emplace( i, j, x );', ins), ('insert', '%s.insertIntoArray( i, j, first, first + m );', ins),
        ('insertArray', '%s.insertArray( i, first, first + m );', ['i >= 0', 'i <= n']), ('eraseArray', '%s.eraseArray( i );', IN_I), ('resizeArray', '%s.resizeArray( i, m );', IN_I), ('resizeArrayV', '%s.resizeArray( i, m, 3 );', IN_I),
        ('clearArray', '%s.clearArray( i );', IN_I), ('setCapacity', '%s.setCapacityOfArray( i, m );', IN_I)]]
    lim = 'vf_limit( val, vf_cell( off + i ), vf_cell( off + i + 1 ), 4 ); '
    src += [fn('aoaview_limit_' + k, par, su, 'v', IN_I, lim + e) for k, e in (('atomic', 'v.emplaceBackAtomic< RAJA::seq_atomic >( i, x );'), ('emplaceBack', 'v.emplaceBack( i, x );'), ('append', 'v.appendToArray( i, first, first + m );'))]
    src.append(fn('aoaview_atomic', par, su, 'v', IN_I + room1, 'v.emplaceBackAtomic< RAJA::seq_atomic >( i, x );'))
    # arrays of sets
    par = PAR % 'int' + ', long i, long j, int x, int const * first, long m'
    su = AOA % 'int' + INV + '  vf_assume( m >= 1 );\n  ArrayOfSetsView< int, long const, B > v( n, bo, bs, bv );\n'
    own = su + '  using O = ArrayOfSets< int, long, B >; O & o = reinterpret_cast< O & >( v );\n'
    acc = [('size', 'vf_use( (void *) %s.sizeOfSet( i ) );', IN_I), ('cap', 'vf_use( (void *) %s.capacityOfSet( i ) );', IN_I), ('contains', 'vf_use( (void *) (long) %s.contains( i, x ) );', IN_I),
           ('brack', 'auto const & t = %s[ i ]; vf_use( &t );', IN_I), ('brackj', 'vf_use( &%s[ i ][ j ] );', el), ('paren', 'vf_use( &%s( i, j ) );', el),
           ('insert', ROOM + '%s.insertIntoSet( i, x );', IN_I), ('insertRange', '%s.insertIntoSet( i, first, first + m );', IN_I), ('remove', '%s.removeFromSet( i, x );', IN_I), ('removeRange', '%s.removeFromSet( i, first, first + m );', IN_I)]
    src += [fn('aosview_limit_' + k, par, su, 'v', IN_I, lim + e) for k, e in (('insert', 'v.insertIntoSet( i, x );'),)]
    src += [fn('aosview_' + k, par, su, 'v', r, e % 'v') for k, e, r in acc]
    src += [fn('aos_' + k, par, own, 'v', r, e % 'o') for k, e, r in acc + [
        ('insertSet', '%s.insertSet( i );', ['i >= 0', 'i <= n']), ('insertSetCap', '%s.insertSet( i, m );', ['i >= 0', 'i <= n']), ('eraseSet', '%s.eraseSet( i );', IN_I), ('clearSet', '%s.clearSet( i );', IN_I),
        ('setCapacity', '%s.setCapacityOfSet( i, m );', IN_I), ('reserve', '%s.reserveCapacityOfSet( i, m );', IN_I)]]
    # sparse matrices; columns given one by one and as a range
    par = PAR % 'int' + ', double * ent, long cape, long nc, long i, int c, int const * cols, double const * vals, double const & x, long m'
    crs = AOA % 'int' + INV + '  B< double > be( ent, cape ); vf_values( ent ); vf_assume( m >= 1 ); vf_assume( cape >= vf_cell( off + n ) ); vf_assume( vf_cell( off + n ) >= 0 );\n'
    col = IN_I + ['c >= 0', 'c < nc']
    acc = [('nnz', 'vf_use( (void *) %s.numNonZeros( i ) );', IN_I), ('cap', 'vf_use( (void *) %s.nonZeroCapacity( i ) );', IN_I), ('empty', 'vf_use( (void *) (long) %s.empty( i ) );', IN_I),
           ('emptyc', 'vf_use( (void *) (long) %s.empty( i, c ) );', IN_I), ('columns', 'auto const & t = %s.getColumns( i ); vf_use( &t );', IN_I), ('remove', '%s.removeNonZero( i, c );', col)]
    own2 = [('setCapacity', '%s.setRowCapacity( i, m );', IN_I), ('reserve', '%s.reserveNonZeros( i, m );', IN_I)]
    spa = [('insert', ROOM + '%s.insertNonZero( i, c );', col)]
    mat = [('entries', 'auto const & t = %s.getEntries( i ); vf_use( &t );', IN_I), ('insert', ROOM + '%s.insertNonZero( i, c, x );', col)]
    add = [(k, '%%s.%s< RAJA::seq_atomic >( i, cols, vals, m );' % k, IN_I) for k in ('addToRow', 'addToRowBinarySearch', 'addToRowLinearSearch', 'addToRowBinarySearchUnsorted')]
    each = ['EACH']
    spa += [('insertRange', '%s.insertNonZeros( i, cols, cols + m );', IN_I + each), ('removeRange', '%s.removeNonZeros( i, cols, cols + m );', IN_I + each)]
    mat += [('insertRange', '%s.insertNonZeros( i, cols, vals, m );', IN_I + each), ('removeRange', '%s.removeNonZeros( i, cols, m );', IN_I + each)]
    sp = crs + '  SparsityPatternView< int, long const, B > v( n, nc, bo, bs, bv );\n'
    cr = crs + '  CRSMatrixView< double, int, long const, B > v( n, nc, bo, bs, bv, be );\n'
    le = lim + 'vf_limit( ent, vf_cell( off + i ), vf_cell( off + i + 1 ), 8 ); '
    src += [fn('spview_limit_insert', par, sp, 'v', col, lim + 'v.insertNonZero( i, c );'), fn('crsview_limit_insert', par, cr, 'v', col, le + 'v.insertNonZero( i, c, x );')]
    src += [fn('spview_' + k, par, sp, 'v', r, e % 'v') for k, e, r in acc + spa]
    src += [fn('sp_' + k, par, sp + '  using O = SparsityPattern< int, long, B >; O & o = reinterpret_cast< O & >( v );\n', 'v', r, e % 'o') for k, e, r in acc + spa + own2]
    src += [fn('crsview_' + k, par, cr, 'v', r, e % 'v') for k, e, r in acc + mat + add]
    src += [fn('crs_' + k, par, cr + '  using O = CRSMatrix< double, int, long, B >; O & o = reinterpret_cast< O & >( v );\n', 'v', r, e % 'o') for k, e, r in acc + mat + add + own2]
    return src


LAB_A = 'nothing is touched before the position is known to be in range'
LAB_R = 'the operation returns only for positions in range'
LAB_L = 'a view that cannot grow writes only inside the capacity of the row'
LAB_E = 'an error is reported only for positions out of range'


def given(st, k):
    """the value at position k of the range of columns"""
    p = st.info['each'][0] + 4 * k
    return Poly.of(atom('init', '', p, 'i32'))


def proven(st):
    if not all(st.facts.proves(f) for f in st.info['range']):
        return False
    if 'each' not in st.info:
        return True
    p, m, bound = st.info['each']
    for _, kid, N, common, conts in st.quants:
        if not st.facts.proves(ge(N, m)):
            continue
        k = Poly.of(Atom.byid[kid])
        fx = st.facts.copy()
        fx.add(ge(k, 0))
        fx.add(lt(k, m))
        ok = bool(conts)
        for c in conts:
            f2 = fx.copy()
            for d in tuple(common) + tuple(c):
                f2.add(d)
            v = given(st, k)
            ok = ok and f2.proves(ge(v, 0)) and f2.proves(lt(v, bound))
        if ok:
            return True
    return False


def in_range(st):
    """the facts of the path together with the documented range; columns read so far are instantiated"""
    fx = st.facts.copy()
    for x in st.info['range']:
        fx.add(x)
    if 'each' in st.info:
        p, m, bound = st.info['each']
        seen = set()
        for c in st.facts.clauses():
            seen |= set(deep_atoms(c))
        for a in seen:
            at = Atom.byid[a]
            if at.kind == 'init' and isinstance(at.args[1], Poly):
                k = (at.args[1] - p).divexact(4)
                if k is not None and not any(Atom.byid[x].kind == 'base' for mm in k.t for x in mm) and fx.proves(ge(k, 0)) and fx.proves(lt(k, m)):
                    fx.add(ge(Poly.of(at), 0))
                    fx.add(lt(Poly.of(at), bound))
    return fx


def imprecise(p):
    return any(k in repr(p) for k in ('hv', 'part', 'inv#', 'nested', 'lread'))


def in_repo(ins):
    return any('/repo/src/' in f or f.startswith('src/') or '/src/' in f and '/verif' not in f for f, _, _ in ins.get('loc') or ())


def run(ctx):
    def h_mark(ip, f, st, ins, a):
        b, off = ip.base_of(a[0])
        st.info['obj'] = b
        st.info['range'] = ()
        st.info['mark'] = True

    def h_range(ip, f, st, ins, a):
        st.info['range'] = st.info['range'] + (a[0],)

    def h_each(ip, f, st, ins, a):
        b, off = ip.base_of(a[0])
        st.info['each'] = (a[0], a[1], a[2])

    def h_limit(ip, f, st, ins, a):
        b, off = ip.base_of(a[0])
        st.info[('limit', b)] = (off, a[1], a[2], a[3].cval())
        st.info['limited'] = True

    def h_atomic(ip, f, st, ins, a):
        old = ip.read(st, a[0], 8)
        if st.info.get('limited'):
            # other threads may have counted it up meanwhile
            new = Poly.of(fresh('prev'))
            st.facts.add(ge(new, old))
            old = new
        st.env[ins['id']] = old
        d = const(1) if len(a) < 2 else a[1]
        ip.write(st, a[0], 8, old + (-d if re.search('atomic(Dec|Sub)', ins['dn']) else d))

    def h_meta(ip, f, st, ins, a):
        b, off = ip.base_of(a[0])
        st.info[('meta', b)] = (off, a[1])

    def h_values(ip, f, st, ins, a):
        b, off = ip.base_of(a[0])
        st.info[('values', b)] = True

    def h_cell(ip, f, st, ins, a):
        st.env[ins['id']] = ip.read(st, a[0], 8)

    def access(ip, st, p, size, write, ins):
        if not st.info.get('mark') or ip.silent or not in_repo(ins):
            return
        b, off = ip.base_of(p)
        at = Atom.byid[b] if b is not None else None
        if b is not None and at.name.startswith('&') and (b != st.info['obj'] or not write):
            return
        if proven(st):
            ip.rep.ok(LAB_A)
            lim = st.info.get(('limit', b))
            if lim:
                base, lo, hi, es = lim
                ok = st.facts.proves(ge(off, base + lo * es)) and st.facts.proves(le(off + size, base + hi * es))
                if not ok and imprecise(off):
                    raise_undecided(ip, 'address %r' % p)
                ip.rep.check(ok, LAB_L, '%s of %r, not known to be inside the capacity' % ('write' if write else 'read', p), short(ins.get('loc')), lifecycle.trailtext(st))
            return
        if b is None:
            if imprecise(p):
                raise_undecided(ip, 'address %r' % p)
                return
        elif ('meta', b) in st.info and not write:
            lo, n = st.info[('meta', b)]
            if st.facts.proves(ge(off, lo)) and st.facts.proves(le(off + size, lo + n)):
                ip.rep.ok(LAB_A)
                return
        elif not (('meta', b) in st.info or ('values', b) in st.info or b == st.info['obj']):
            return
        ip.rep.check(False, LAB_A, '%s of %r although the position is not known to be in range' % ('write' if write else 'read', p), short(ins.get('loc')), lifecycle.trailtext(st))

    def raise_undecided(ip, what):
        from engine.interp import Unsupported
        raise Unsupported('imprecise ' + what)

    def guard(h):
        def g(ip, f, st, ins, a):
            if st.info.get('mark') and not ip.silent and not proven(st):
                ip.rep.check(False, LAB_A, 'storage is changed although the position is not known to be in range', short(ins.get('loc')), lifecycle.trailtext(st))
            return h(ip, f, st, ins, a)
        return g

    # operations whose later course needs more than the linear domain
    early = r'Range$|_crs_insert$' if ctx.tier == 'quick' else r'Range$'

    def goal(ip, f):
        if not re.search(early, f):
            return None
        return lambda st: bool(st.info.get('range')) and proven(st)

    def setup(ip, st, args):
        pass

    def fin(ip, f, outs, rep):
        for kind, st, v in outs + [e for e in ip.loop_errors if e[1].info.get('mark')]:
            if not st.info.get('mark'):
                rep.undecided.append('path ends before the operation')
                continue
            if kind == 'ret':
                rep.check(proven(st), LAB_R, 'a path returns although %s is not known' % [x for x in st.info['range'] if not st.facts.proves(x)], f[3:], lifecycle.trailtext(st))
            elif kind == 'error':
                if st.info.get('limited') and proven(st):
                    continue
                fx = in_range(st)
                c = fx.dead or fx.contradictory()
                if not c and any(imprecise(x) for x in st.facts.clauses()):
                    rep.undecided.append('error path with imprecise condition')
                    continue
                rep.check(c, LAB_E, 'an error is raised although every position may be in range', short(v[1].get('loc')), lifecycle.trailtext(st))

    pr = [(r, guard(h) if r in (r'^vf_buf_realloc$', r'^vf_buf_free$') else h) for r, h in probe.HANDLERS]
    hs = [(r'^vf_mark$', h_mark), (r'^vf_range$', h_range), (r'^vf_each$', h_each), (r'^vf_limit$', h_limit), (r'RAJA::atomic(Inc|Dec|Add|Sub)<', h_atomic), (r'^vf_meta$', h_meta), (r'^vf_values$', h_values), (r'^vf_cell$', h_cell), (r'^vf_use$', lambda *a: None)] + pr + lifecycle.HANDLERS
    defs = ('NDEBUG', 'LVARRAY_BOUNDS_CHECK')
    src = gen()
    texts = [HEAD + '\n'.join(src[i:i + 40]) for i in range(0, len(src), 40)]
    build.prefetch([('c04', defs, (), (), t) for t in texts])
    for t in texts:
        ctx.drive('c04', text=t, handlers=hs, defs=defs, opts={'access': access, 'goal': goal}, finish=fin)
    # the text of the report itself must not read what the check is about to refuse
    hs2 = [(r'LvArray::system::callErrorHandler', lambda ip, f, st, ins, a: ('error', (0, ins)))] + hs
    msg = [x for x in src if re.search(r'vf_\w*_(paren|brackj|emplaceBack|emplace|insert|append|size|cap|remove|insertRange|erase|eraseFrom)\(', x)]
    t = HEAD + '\n'.join(msg)
    ctx.drive('c04m', text=t, handlers=hs2, defs=defs, lvir_args=('--no-cut',), opts={'access': access, 'goal': lambda ip, f: lambda st: bool(st.info.get('range')) and proven(st)}, finish=fin)
