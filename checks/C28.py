"""The debugger display hooks: rows inside the display buffer, described storage inside the container."""
import re
from engine import build, lifecycle
from engine.interp import short, Unsupported
from engine.terms import *

TECHNIQUE = 'abstract interpretation of LLVM IR: buffer bounds under an inductive invariant of the display cursor; each described address and extent entailed to lie inside the container'
LEVEL_NOTE = '''The display buffer (tv_data_display.c): every call of TV_ttf_add_row with any names, any value and any earlier rows, covered by an invariant of the cursor; the recursive number writer at its contract, which is
checked. The hooks of Array, ArrayView and ArraySlice: one to three dimensions, several element and index types, layouts, every extent including zero. That each row shows every character is not decided, only that it stays inside and that
failure is reported and leaves the earlier rows. Names are zero terminated strings.'''
EXPLANATION = '''The cursor of the display buffer is assumed anywhere inside it; loops over characters are covered by inductive invariants (cursor plus room is constant), each write is entailed inside the buffer, the cursor is left inside,
failure leaves it where it was. For the hooks, each described address with its extents (product of the extents the type text is made from, times the size of its element) must be entailed to lie inside the member or the data of the container.
The text of a type gives each extent once, reading no others.'''
ASSUMPTIONS = ['std::to_string and string concatenation behave as specified', 'field and type names are zero terminated']

LAB_B = 'rows are written inside the display buffer'
LAB_C = 'the cursor of the display stays inside the buffer'
LAB_F = 'a call that reports failure adds nothing'
LAB_S = 'a call that reports success has added something'
LAB_D = 'digits are read inside the table'
LAB_P = 'a part of a row is given room that exists'

SRC = '''
extern "C" {
#include "%s/src/totalview/tv_data_display.c"
int vf_addrow( char const * name, char const * type, void const * value ) { return TV_ttf_add_row( name, type, value ); }
void vf_before() { TV_ttf_pre_display_callback(); }
void vf_after() { TV_ttf_post_display_callback(); }
int vf_result( TV_ttf_format_result r ) { return TV_ttf_is_format_result_ok( r ); }
}
'''


def writer(f):
    """( buffer, room, ..., next buffer, next room )"""
    t = [a['ty'] for a in f['args']]
    return len(t) >= 4 and t[:2] == ['ptr', 'i64'] and t[-2:] == ['ptr', 'ptr']


def recursive(js, info):
    """functions that call themselves stay calls: analysed on their own, with the constants all callers pass"""
    recs = {f['name']: f for f in js['functions'] if not f['name'].startswith('vf_')}
    for f in list(recs.values()):
        const_, bad = {}, set()
        for g in js['functions']:
            for b in g['blocks']:
                for i in b['insts']:
                    if i['op'] != 'call' or i.get('fn') != f['name']:
                        continue
                    for k, o in enumerate(i['args']):
                        if g is f and o.get('k') == 'v' and o['v'] == f['args'][k]['id']:
                            continue
                        if o.get('k') != 'int' or const_.setdefault(k, o['i']) != o['i']:
                            bad.add(k)
        info[f['name']] = {k: int(c) for k, c in const_.items() if k not in bad}
        f['name'] = 'vf_' + f['name']
        f['root'] = True
    return js


LAB_M = 'names that would break a row are refused'
SCANS = r'^(my_)?str(pbrk|chr|cspn)(\(|$)'


def names(ctx):
    """a row is added only after both names were searched for the characters that separate rows and columns"""
    def h_scan(ip, fn, st, ins, a):
        text = lifecycle.str_arg(ip, ins['args'][1])
        if text == '?':
            text = chr(int(a[1].cval()) & 255) if a[1].isconst() else ''
        r = Poly.of(fresh('found'))
        st.facts.add(ge(r, 0))
        st.events.append(('scan', a[0], text, r if 'cspn' not in ins['dn'] else None))
        st.env[ins['id']] = r

    def fin(ip, f, outs, rep):
        if f != 'vf_addrow':
            return
        if not any(e[0] == 'scan' for _k, st, _v in outs for e in st.events):
            raise Unsupported('names are not searched by one of the known functions')
        for kind, st, v in outs:
            if kind != 'ret' or st.facts.proves(ne(v, 0)):
                continue
            for k in (0, 1):
                p = ip.fn.js['args'][k]
                mine = [e for e in st.events if e[0] == 'scan' and st.facts.proves(eq(e[1], sym(p)))]
                if any(e[3] is None for e in mine):
                    raise Unsupported('a search by span')
                clean = set(''.join(e[2] for e in mine if st.facts.proves(eq(e[3], 0))))
                rep.check(clean >= {'\n', '\t'}, LAB_M, 'a row is added although the %s name was searched for %r only' % (('field', 'type')[k], ''.join(sorted(clean))), 'src/totalview/tv_data_display.c: TV_ttf_add_row', lifecycle.trailtext(st))
    roots = {}

    def sym(a):
        return roots[a['id']]

    def setup(ip, st, args):
        roots.clear()
        for a in ip.fn.js['args']:
            roots[a['id']] = st.env[a['id']]
    ctx.drive('c28m', text=SRC % build.REPO, only='vf_addrow', lvir_args=('--opaque', SCANS + '|^marshal_row|^my_zeroit'), handlers=[(SCANS, h_scan), (r'^marshal_row|^my_zeroit', h_any)], setup=setup, finish=fin)


def h_any(ip, fn, st, ins, a):
    if ins['ty'] != 'void':
        st.env[ins['id']] = ip.result(st, ins, 'n')


def run(ctx):
    displayed(ctx)
    names(ctx)
    info = {}
    text = SRC % build.REPO
    glob = {}

    def prepare(js):
        glob.update({g['name']: g for g in js['globals']})
        return recursive(js, info)

    def limits(ip, st, b):
        """(start, end) of the storage called b, as offsets, and the label to use"""
        n = Atom.byid[b].name
        if n.startswith('@'):
            g = glob.get(n[1:])
            if g is None:
                return None
            return const(0), const(g['size']), LAB_B if not g['const'] else LAB_D
        if b in ip.alloca_size:
            return const(0), const(ip.alloca_size[b]), LAB_B
        r = st.info.get(('room', b))
        return r and (const(0), r, LAB_B)

    def inside(ip, st, p, size, ins, what):
        b, off = ip.base_of(p)
        if b is None:
            raise Unsupported('address %r' % p)
        lim = limits(ip, st, b)
        if lim is None:
            return
        g = glob.get(Atom.byid[b].name[1:])
        if g and g['const'] and any(Atom.byid[a].name.startswith(('x#', 'inv#', 'hv', 'kappa')) for a in off.atoms()):
            # walking along a string up to its end
            return
        lo, hi, lab = lim
        k = list(info.get(ip.fn.name[3:], {}).values())
        if lab is LAB_D and len(k) == 1 and 2 <= k[0] < 37:
            # a digit is below the base
            hi = const(k[0])
        ok = st.facts.proves(ge(off, lo)) and st.facts.proves(le(off + size, hi))
        ip.rep.check(ok, lab, '%s at %r of %r bytes, not known to be inside' % (what, p, size), short(ins.get('loc')), lifecycle.trailtext(st))

    def access(ip, st, p, size, write, ins):
        if not ip.silent:
            inside(ip, st, p, const(size) if isinstance(size, int) else size, ins, 'write' if write else 'read')

    def cursors(ip):
        """mutable pointers of the file that start at a buffer of the file"""
        for n, g in glob.items():
            i = g.get('init') or {}
            if not g['const'] and i.get('k') == 'glob' and i['g'] in glob:
                yield n, i['g'], glob[i['g']]['size']

    def setup(ip, st, args):
        f = ip.fn
        if f.name[3:] in info:
            if not writer(f.js):
                raise Unsupported('recursive function of another form')
            a = f.js['args']
            buf, room = st.env[a[0]['id']], st.env[a[1]['id']]
            st.facts.add(ge(room, 0))
            st.info[('room', ip.base_of(buf)[0])] = room
            for k, x in enumerate(a):
                if x['ty'] != 'ptr':
                    st.facts.add(ge(st.env[x['id']], 0))
                    if k in info[f.name[3:]]:
                        st.facts.add(eq(st.env[x['id']], info[f.name[3:]][k]))
                        st.env[x['id']] = const(info[f.name[3:]][k])
            st.info[('room', ip.base_of(st.env[a[-2]['id']])[0])] = const(8)
            st.info[('room', ip.base_of(st.env[a[-1]['id']])[0])] = const(8)
        for n, b, size in cursors(ip):
            o = sym('cursor.' + n)
            st.facts.add(ge(o, 0))
            st.facts.add(le(o, size - 1))
            ip.mem_write(st, Poly.of(atom('base', '@' + n)), 8, Poly.of(atom('base', '@' + b)) + o)
        for n, b, size in cursors(ip):
            st.info[('cursor', n)] = sym('cursor.' + n)

    def h_rec(ip, fn, st, ins, a):
        # at its contract: writes inside the room, what remains is the rest of it
        ok = True
        n = Poly.of(fresh('put'))
        st.facts.add(ge(n, 0))
        st.facts.add(le(n, a[1]))
        if not ip.silent:
            b, off = ip.base_of(a[0])
            if b is None:
                raise Unsupported('buffer %r' % a[0])
            lim = limits(ip, st, b)
            ip.rep.check(lim is not None and st.facts.proves(ge(a[1], 0)) and st.facts.proves(ge(off, lim[0])) and st.facts.proves(le(off + a[1], lim[1])), LAB_P,
                         '%r bytes at %r, not known to be inside' % (a[1], a[0]), short(ins.get('loc')), lifecycle.trailtext(st))
        for k, v in ((-2, a[0] + n), (-1, a[1] - n)):
            if not (a[k].isconst() and a[k].cval() == 0):
                ip.mem_write(st, a[k], 8, v)
        r = Poly.of(fresh('digits'))
        st.facts.add(ge(r, 0))
        st.env[ins['id']] = r

    def fin(ip, f, outs, rep):
        for kind, st, v in outs:
            if kind != 'ret':
                continue
            tr = lifecycle.trailtext(st)
            if f[3:] in info:
                a = ip.fn.js['args']
                buf, room = st.env[a[0]['id']], st.env[a[1]['id']]
                pn, pl = st.env[a[-2]['id']], st.env[a[-1]['id']]
                # callers may pass null for either
                if st.facts.proves(eq(pn, 0)) or st.facts.proves(eq(pl, 0)):
                    continue
                nb, nl = ip.read(st, pn, 8, 'ptr'), ip.read(st, pl, 8, 'i64')
                fx = st.facts
                rep.check(fx.proves(ge(nb - buf, 0)) and fx.proves(le(nb - buf, room)) and fx.proves(eq(nb - buf + nl, room)), LAB_C, 'returns %r with room %r of %r' % (nb, nl, room), f, tr)
                rep.check(fx.proves(ge(v, 0)), LAB_C, 'returns a count of %r' % v, f, tr)
                continue
            for n, b, size in cursors(ip):
                c = ip.read(st, Poly.of(atom('base', '@' + n)), 8, 'ptr') - Poly.of(atom('base', '@' + b))
                rep.check(st.facts.proves(ge(c, 0)) and st.facts.proves(le(c, size - 1)), LAB_C, 'the cursor is left at %r' % c, f, tr)
                if f == 'vf_addrow':
                    if st.facts.proves(eq(v, 0)):
                        rep.check(st.facts.proves(gt(c, 0)), LAB_S, 'the cursor is left at %r' % c, f, tr)
                    else:
                        rep.check(st.facts.proves(ne(v, 0)) and (c == sym('cursor.' + n) or st.facts.proves(eq(c, 0))), LAB_F, 'the cursor is left at %r, result %r' % (c, v), f, tr)
            if f == 'vf_result':
                pass

    ctx.drive('c28', text=text, prepare=prepare, handlers=[(r'.*', h_rec)], opts={'access': access, 'root_seconds': 500}, setup=setup, finish=fin)


LAB_X = 'described storage lies inside the container'
LAB_T = 'the text of a type gives its extents'
LAB_N = 'nothing is described when there is no container'
SIZES = {'double': 8, 'float': 4, 'int': 4, 'long': 8, 'char': 1, 'bool': 1, 'unsigned int': 4, 'unsigned long': 8, 'short': 2}

HOOKS = '''
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "vf.hpp"
extern "C" void vf_region( void const * p, long bytes, int exact ) noexcept;
extern "C" void vf_hook() noexcept;
extern "C" void vf_none() noexcept;
'''
PERMS = {1: ['RAJA::PERM_I'], 2: ['RAJA::PERM_IJ', 'RAJA::PERM_JI'], 3: ['RAJA::PERM_IJK', 'RAJA::PERM_KJI']}


def hooks():
    out = []
    for nd in (1, 2, 3):
        for t, ts in (('double', 8), ('int', 4), ('long', 8)):
            for ix in ('int', 'long'):
                n = '%d_%s_%s' % (nd, t, ix)
                ds = ' * '.join('long( d[ %d ] )' % k for k in range(nd))
                for c in ('', ' const'):
                    out.append('''extern "C" int vf_slice%(m)s( %(t)s * p, %(ix)s const * d, %(ix)s const * s )
{ using S = LvArray::ArraySlice< %(t)s%(c)s, %(nd)d, %(u)d, %(ix)s >; S const a( p, d, s ); %(pos)s
  vf_region( p, %(ds)s * sizeof( %(t)s ), 1 ); vf_region( d, %(nd)d * sizeof( %(ix)s ), 1 ); vf_region( s, %(nd)d * sizeof( %(ix)s ), 1 ); vf_region( &a, sizeof( S ), 0 );
  vf_hook(); return S::TV_ttf_display_type( &a ); }''' % dict(m=n + ('c' if c else ''), t=t, c=c, nd=nd, u=nd - 1, ix=ix, ds=ds, pos=' '.join('vf_assume( d[ %d ] >= 0 );' % k for k in range(nd))))
                out.append('''extern "C" int vf_nullslice%s() { using S = LvArray::ArraySlice< %s, %d, %d, %s >; vf_none(); return S::TV_ttf_display_type( nullptr ); }''' % (n, t, nd, nd - 1, ix))
            for p in PERMS[nd]:
                for cls, args in (('Array', '%s, %d, %s, %s, LvArray::MallocBuffer'), ('ArrayView', '%s, %d, LvArray::typeManipulation::getStrideOneDimension( %s{} ), %s, LvArray::MallocBuffer')):
                    ty = 'LvArray::%s< %s >' % (cls, args % (t, nd, p, 'int'))
                    m = '%s_%d_%s_%s' % (cls, nd, t, p[-3:].strip('_'))
                    out.append('''extern "C" int vf_%s( %s const & a )
{ using S = %s; vf_region( a.dims(), %d * sizeof( int ), 1 ); vf_region( a.strides(), %d * sizeof( int ), 1 ); vf_region( &a.dataBuffer(), sizeof( a.dataBuffer() ), 1 ); vf_region( &a, sizeof( S ), 0 );
  vf_hook(); return S::TV_ttf_display_type( &a ); }''' % (m, ty, ty, nd, nd))
                    out.append('''extern "C" int vf_null%s() { using S = %s; vf_none(); return S::TV_ttf_display_type( nullptr ); }''' % (m, ty))
    return HOOKS + '\n'.join(out)


FORMAT = HOOKS + '''
extern "C" void vf_format_int( int n, int const * d ) { totalview::format< double, int >( n, d ); }
extern "C" void vf_format_long( int n, long const * d ) { totalview::format< double, long >( n, d ); }
'''


def h_region(ip, fn, st, ins, a):
    st.info.setdefault('regions', ())
    st.info['regions'] += ((a[0], a[1], a[2].cval() != 0),)


def h_hook(ip, fn, st, ins, a):
    st.info['hook'] = True


def h_none(ip, fn, st, ins, a):
    st.info['none'] = True


def h_format(ip, fn, st, ins, a):
    """the text of an array type: remembered with the string object it is put into"""
    m = re.search(r'format<(.*), [^,<>]*>\(int, (\w[\w ]*?)( const)?\*\)$', ins['dn'])
    ts = SIZES.get(m.group(1).replace(' const', '').strip()) if m else None
    es = SIZES.get(m.group(2)) if m else None
    n = a[1]
    if ts is None or es is None or not n.isconst():
        raise Unsupported('type text %s' % ins['dn'])
    total = const(ts)
    for k in range(int(n.cval())):
        total = total * ip.read(st, a[2] + es * k, es, 'i%d' % (8 * es))
    st.info[('text', repr(a[0]))] = (total, [(a[2], const(es) * n)])


def h_type(ip, fn, st, ins, a):
    st.info[('text', repr(a[0]))] = (None, [])


def h_cstr(ip, fn, st, ins, a):
    t = Poly.of(fresh('text', 'base'))
    if ('text', repr(a[0])) in st.info:
        st.info[('text', repr(t))] = st.info[('text', repr(a[0]))]
    st.env[ins['id']] = t


def h_row(ip, fn, st, ins, a):
    st.events.append(('row', a[1], a[2], ins))
    st.info['rows'] = st.info.get('rows', ()) + ((a[1], a[2], ins),)
    st.env[ins['id']] = Poly.of(fresh('added'))


def h_nop(ip, fn, st, ins, a):
    pass


def described(js_globals):
    def fin(ip, f, outs, rep):
        for kind, st, v in outs:
            if kind != 'ret':
                continue
            tr = lifecycle.trailtext(st)
            rows = st.info.get('rows', ())
            if st.info.get('none'):
                rep.check(not rows, LAB_N, '%d rows' % len(rows), f, tr)
                continue
            if not rows:
                rep.ok(LAB_X)
            for t, p, ins in rows:
                loc = short(ins.get('loc'))
                total = None
                if ('text', repr(t)) in st.info:
                    total, reads = st.info[('text', repr(t))]
                    for q, n in reads:
                        # what the extents are read from is either local or the container
                        b, off = ip.base_of(q)
                        if b in ip.alloca_size:
                            rep.check(st.facts.proves(ge(off, 0)) and st.facts.proves(le(off + n, ip.alloca_size[b])), LAB_T, 'extents read at %r' % q, loc, tr)
                        else:
                            ok = any((lambda d: d is not None and st.facts.proves(ge(d, 0)) and st.facts.proves(le(d + n, m)))(apart(ip, q, r)) for r, m, _ in st.info['regions'])
                            rep.check(ok, LAB_T, 'extents read at %r' % q, loc, tr)
                else:
                    b, off = ip.base_of(t)
                    g = js_globals.get(Atom.byid[b].name[1:]) if b is not None else None
                    name = (g or {}).get('str', '').rstrip('\0')
                    if name not in SIZES:
                        raise Unsupported('type text %r' % t)
                    total = const(SIZES[name])
                fits = False
                exact = [r for r in st.info['regions'] if r[2] and apart(ip, p, r[0]) is not None and st.facts.proves(eq(apart(ip, p, r[0]), 0))]
                for r, m, e in exact or [r for r in st.info['regions'] if not r[2]]:
                    d = apart(ip, p, r)
                    if d is None:
                        continue
                    if total is None:
                        # one object of a named type: it starts where a part of the container starts
                        fits = fits or bool(exact)
                        continue
                    if st.facts.proves(ge(d, 0)) and (d + total == m or st.facts.proves(le(d + total, m))):
                        fits = True
                rep.check(fits, LAB_X, '%r bytes at %r' % (total, p), loc, tr)
    return fin


def apart(ip, p, q):
    bp, op = ip.base_of(p)
    bq, oq = ip.base_of(q)
    if bp is None or bp != bq:
        return None
    return op - oq


def displayed(ctx):
    defs = ('NDEBUG', 'LVARRAY_USE_TOTALVIEW_OUTPUT', 'LVARRAY_BOUNDS_CHECK')
    glob = {}

    def prepare(js):
        glob.update({g['name']: g for g in js['globals']})
        return js
    hs = [(r'^vf_region$', h_region), (r'^vf_hook$', h_hook), (r'^vf_none$', h_none), (r'totalview::format<', h_format), (r'demangle', h_type), (r'::(c_str|data)\(\) const$', h_cstr), (r'^TV_ttf_add_row$', h_row),
          (r'basic_string<.*::~basic_string', h_nop)] + lifecycle.HANDLERS
    ctx.drive('c28h', text=hooks(), defs=defs, lvir_args=('--opaque', 'totalview::format|demangle|TV_ttf_add_row'), handlers=hs, prepare=prepare, finish=described(glob))

    def access(ip, st, p, size, write, ins):
        b, off = ip.base_of(p)
        if ip.silent or b is None or Atom.byid[b].name != 'd':
            return
        n = sym('n')
        st.events.append(('extentread', off, None, ins))
        ip.rep.check(st.facts.proves(ge(off, 0)) and st.facts.proves(le(off + size, n * size)), LAB_T, 'an extent is read at %r' % p, short(ins.get('loc')), lifecycle.trailtext(st))

    def setup(ip, st, args):
        st.facts.add(ge(args['n'], 0))

    def h_text(ip, fn, st, ins, a):
        st.events.append(('extent', a[-1], None, ins))

    def fin(ip, f, outs, rep):
        es = 4 if f.endswith('int') else 8
        for kind, st, v in outs:
            if kind != 'ret':
                continue
            for e in st.events:
                if e[0] != 'loop':
                    continue
                k, N = Poly.of(Atom.byid[e[1]]), e[2]
                rep.check(st.facts.proves(eq(N, sym('n'))), LAB_T, '%r extents are given' % N, f, lifecycle.trailtext(st))
                for evs, dec in e[3]:
                    x = [y for y in evs if y[0] == 'extent']
                    r = [y for y in evs if y[0] == 'extentread']
                    rep.check(len(x) == 1 and all(y[1] == k * es for y in r), LAB_T, 'pass %r gives %d extents, read at %r' % (k, len(x), [y[1] for y in r]), f, lifecycle.trailtext(st))
    ctx.drive('c28f', text=FORMAT, defs=defs, lvir_args=('--opaque', 'std::.*to_string|demangle|std::.*operator\\+'), handlers=[(r'to_string', h_text), (r'.*', h_nop)], opts={'access': access}, setup=setup, finish=fin)
