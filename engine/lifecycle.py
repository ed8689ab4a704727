"""Typestate of element slots.  A slot is raw, live(value) or husk (moved from).  The element type is opaque: its
constructors, destructor and assignments are the transitions."""
from .terms import *
from .interp import *

ELEM = r'(?:\w+::)*Elem'


class Reporter:
    def __init__(self):
        self.obl = {}       # label -> number of times decided
        self.viol = []      # (label, message, loc, trail)
        self.seen = set()
        self.undecided = []

    def ok(self, label):
        self.obl[label] = self.obl.get(label, 0) + 1

    def fail(self, label, msg, loc, trail=()):
        self.ok(label)
        k = (label, msg, loc)
        if k in self.seen:
            return
        self.seen.add(k)
        self.viol.append((label, msg, loc, list(trail)))

    def check(self, cond, label, msg, loc, trail=()):
        if cond:
            self.ok(label)
        else:
            self.fail(label, msg, loc, trail)
        return cond


def trailtext(st):
    return ['%s: %r' % (l, f) for l, f in st.trail if f is not None][-8:]


def forall(ip, st, fn):
    """run fn(state) with all forks kept local; fn returns nothing"""
    work = [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 400:
            raise Unsupported('too many cases in a quantified obligation')
        sn = s.snap()
        try:
            fn(s)
        except Fork as fk:
            s.restore(sn)
            work.extend(ip.fork(s, fk.cond))


LAB_SLOT = 'an element is constructed before it is used, and not constructed or destroyed twice'
LAB_AFTER = 'exactly the slots that should hold an element do'
LAB_VALUE = 'every value is at the position the operation defines'


def label_of(ip, st, lab=LAB_SLOT):
    return st.info.get('label', lab)


def elem_size(ip):
    return ip.opts.get('esize', 4)


def slot(ip, st, p):
    b, off = ip.base_of(p)
    if b is None:
        return ('unknown', 'pointer of unknown origin')
    h = st.info.get(('heap', b))
    if h and h[0] == 'freed':
        return ('unknown', 'its storage was released at %s' % h[2])
    return ip.query(st, b, off, elem_size(ip), 'elem', len(st.log))


def loc(ins):
    return short(ins.get('loc'))


def ptrtext(p):
    return repr(p)


def report(ip, st, ins, cond, msg):
    if ip.silent:
        return
    lab = label_of(ip, st)
    if cond:
        ip.rep.ok(lab)
    else:
        ip.rep.fail(lab, msg, loc(ins), trailtext(st))


def read_value(ip, st, ins, p, what):
    """value of the element at p, which has to be live"""
    ctx = st.loopctx
    if ctx and ctx['rec'] is None:
        b, off = ip.base_of(p)
        seq = ip.next_seq(st)
        if b is not None:
            ctx['reads'].add(b)
            return ('live', ('at', b, off, seq))
        return ('unknown', '')
    if ctx:
        ip.next_seq(st)
    v = slot(ip, st, p)
    if v[0] == 'unknown':
        report(ip, st, ins, False, '%s reads element %s: %s' % (what, ptrtext(p), v[1]))
        return ('live', ('junk', fresh('junk')))
    report(ip, st, ins, v[0] == 'live', '%s reads element %s which is %s' % (what, ptrtext(p), {'raw': 'not constructed or already destroyed', 'husk': 'moved from'}.get(v[0])))
    if v[0] != 'live':
        return ('live', ('junk', fresh('junk')))
    return v


def norm_at(v):
    """('live', ('at',...)) as an event value resolves lazily to the slot content, which itself is a status tuple"""
    return v


def need(ip, st, ins, p, allowed, what):
    ctx = st.loopctx
    if ctx and ctx['rec'] is None:
        ip.next_seq(st)
        return
    if ctx:
        ip.next_seq(st)
    v = slot(ip, st, p)
    if v[0] == 'unknown':
        report(ip, st, ins, False, '%s touches %s: %s' % (what, ptrtext(p), v[1]))
        return
    names = {'raw': 'is not constructed or already destroyed', 'live': 'still holds a value that nothing destroyed', 'husk': 'was moved from'}
    report(ip, st, ins, v[0] in allowed, '%s %s which %s' % (what, ptrtext(p), names.get(v[0], v[0])))


def put(ip, st, p, v):
    # a lazily resolved value is stored without its wrapper: resolving it yields the whole slot status
    if v[0] == 'live' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'at':
        v = v[1]
    ip.mem_write(st, p, elem_size(ip), v)


def h_default(ip, fn, st, ins, a):
    need(ip, st, ins, a[0], ('raw', 'husk'), 'default construction of')
    put(ip, st, a[0], ('live', ('dflt',)))


def h_copy(ip, fn, st, ins, a):
    need(ip, st, ins, a[0], ('raw', 'husk'), 'copy construction of')
    v = read_value(ip, st, ins, a[1], 'copy construction')
    put(ip, st, a[0], v)


def h_move(ip, fn, st, ins, a):
    need(ip, st, ins, a[0], ('raw', 'husk'), 'move construction of')
    v = read_value(ip, st, ins, a[1], 'move construction')
    put(ip, st, a[0], v)
    put(ip, st, a[1], ('husk',))


def h_dtor(ip, fn, st, ins, a):
    need(ip, st, ins, a[0], ('live', 'husk'), 'destruction of')
    put(ip, st, a[0], ('raw',))


def h_assign(ip, fn, st, ins, a):
    need(ip, st, ins, a[0], ('live', 'husk'), 'assignment to')
    v = read_value(ip, st, ins, a[1], 'copy assignment')
    put(ip, st, a[0], v)
    if ins['ty'] != 'void':
        st.env[ins['id']] = a[0]


def h_massign(ip, fn, st, ins, a):
    if a[0] == a[1]:
        if ins['ty'] != 'void':
            st.env[ins['id']] = a[0]
        return
    need(ip, st, ins, a[0], ('live', 'husk'), 'assignment to')
    v = read_value(ip, st, ins, a[1], 'move assignment')
    put(ip, st, a[0], v)
    put(ip, st, a[1], ('husk',))
    if ins['ty'] != 'void':
        st.env[ins['id']] = a[0]


def valkey(v):
    return v


def h_cmp(rel):
    def h(ip, fn, st, ins, a):
        x = read_value(ip, st, ins, a[0], 'comparison')
        y = read_value(ip, st, ins, a[1], 'comparison')
        kx, ky = x[1], y[1]
        if rel == '==':
            f = batom('elt_eq', *sorted((kx, ky), key=repr))
        elif rel == '!=':
            f = neg(batom('elt_eq', *sorted((kx, ky), key=repr)))
        elif rel == '<':
            f = batom('elt_lt', kx, ky)
        elif rel == '>':
            f = batom('elt_lt', ky, kx)
        elif rel == '<=':
            f = neg(batom('elt_lt', ky, kx))
        else:
            f = neg(batom('elt_lt', kx, ky))
        st.env[ins['id']] = f
    return h


def str_arg(ip, o):
    if o['k'] in ('glob',):
        return ip.m.globals[o['g']].get('str', '').rstrip('\0')
    if o['k'] == 'cgep':
        return str_arg(ip, o['b'])
    return '?'


def h_region(kind):
    def h(ip, fn, st, ins, a):
        b, off = ip.base_of(a[0])
        es = elem_size(ip)
        n = a[1]
        if kind == 'live':
            tag = str_arg(ip, ins['args'][2])

            def val(o, off=off):
                q = (o - off).divexact(es)
                if q is None:
                    return ('unknown', 'a misaligned address')
                return ('live', ('orig', tag, q))
        else:
            def val(o):
                return ('raw',)
        reg = st.info.get(('region', b), ())
        st.info[('region', b)] = reg + ((off, off + n * es, val),)
        if not st.facts.proves(ge(n, 0)):
            st.facts.add(ge(n, 0))
    return h


def h_assume(ip, fn, st, ins, a):
    f = ip.asbool(st, a[0])
    st.facts.add(f)
    if st.facts.contradictory():
        raise Dead()


def h_label(ip, fn, st, ins, a):
    st.info['label'] = str_arg(ip, ins['args'][0])


def h_prove(ip, fn, st, ins, a):
    lab = str_arg(ip, ins['args'][1])
    f = ip.asbool(st, a[0])
    if ip.silent:
        return
    v = st.tri(f)
    if v is True:
        ip.rep.ok(lab)
    else:
        ip.rep.fail(lab, 'cannot show %r' % (f,) if v is None else 'does not hold: %r' % (f,), where(ip, st, ins), trailtext(st))


def where(ip, st, ins):
    if st.info.get('where'):
        return st.info['where']
    l = loc(ins)
    if l.startswith('src/'):
        return l
    # the repository code that computed the value: nearest definition with a location there
    seen, work = set(), [a['v'] for a in ins.get('args', ()) if a.get('k') == 'v']
    while work:
        v = work.pop(0)
        d = ip.fn.inst.get(v)
        if d is None or v in seen or len(seen) > 400:
            continue
        seen.add(v)
        x = short(d.get('loc'))
        if x.startswith('src/'):
            return '%s, in %s' % (x, ip.fn.name)
        for k in ('ops', 'args'):
            work += [o['v'] for o in d.get(k) or () if o.get('k') == 'v']
        for o, _ in d.get('in') or ():
            if o.get('k') == 'v':
                work.append(o['v'])
        if d.get('b', {}).get('k') == 'v':
            work.append(d['b']['v'])
    # the last repository code on the way here
    for x, _ in reversed(st.trail):
        if x.startswith('src/'):
            return '%s, in %s' % (x, ip.fn.name)
    best = None
    for i in ip.fn.inst.values():
        if i is ins:
            break
        x = short(i.get('loc'))
        if x.startswith('src/'):
            best = x
    if best is None:
        # the last effect of the repository's code on the way here
        def last(ev):
            for e in reversed(ev):
                if isinstance(e, (list, tuple)):
                    r = last(e)
                    if r:
                        return r
                elif isinstance(e, dict) and 'loc' in e and short(e.get('loc')).startswith('src/'):
                    return short(e.get('loc'))
        best = last(st.events)
    return '%s, in %s' % (best or l, ip.fn.name)


def same_value(st, v, tag, idx):
    if v[0] != 'live':
        return False
    x = v[1]
    return x[0] == 'orig' and x[1] == tag and st.facts.proves(eq(x[2], idx))


def vtext(v):
    if v[0] == 'live':
        x = v[1]
        if x[0] == 'orig':
            return 'holds %s[%r]' % (x[1], x[2])
        if x[0] == 'dflt':
            return 'holds a default value'
        return 'holds %r' % (x,)
    return {'raw': 'is not constructed', 'husk': 'was moved from', 'unknown': 'is unknown: %s' % (v[1] if len(v) > 1 else '')}[v[0]]


def h_expect(kind):
    def h(ip, fn, st, ins, a):
        if ip.silent:
            return
        es = elem_size(ip)
        judge = ip.opts.get('judge')
        knd = 'alive' if judge == 'slots' and kind in ('seq', 'all', 'dflt', 'husk') else kind
        lab = label_of(ip, st, LAB_AFTER if knd in ('raw', 'alive') else LAB_VALUE)
        p, lo, hi = a[0], a[1], a[2]
        if st.facts.proves(le(hi, lo)):
            ip.rep.ok(lab)
            return
        s = st.copy()
        k = Poly.of(fresh('slot'))
        s.facts.add(ge(k, lo))
        s.facts.add(lt(k, hi))
        if s.facts.contradictory():
            ip.rep.ok(lab)
            return

        def chk(s):
            v = slot(ip, s, p + k * es)
            if s.facts.contradictory():
                return
            if knd == 'raw':
                good, want = v[0] == 'raw', 'should not hold an element'
            elif knd == 'seq':
                tag = str_arg(ip, ins['args'][3])
                good = same_value(s, v, tag, k + a[4])
                want = 'should hold %s[%r]' % (tag, k + a[4])
            elif knd == 'all':
                tag = str_arg(ip, ins['args'][3])
                good = same_value(s, v, tag, a[4])
                want = 'should hold %s[%r]' % (tag, a[4])
            elif knd == 'dflt':
                good, want = v[0] == 'live' and v[1] == ('dflt',), 'should hold a default value'
            elif knd == 'husk':
                good, want = v[0] == 'husk', 'should be moved from'
            elif knd == 'alive':
                good, want = v[0] in ('live', 'husk'), 'should be a constructed element'
            if good:
                ip.rep.ok(lab)
            else:
                ip.rep.fail(lab, 'at exit slot %r of %r %s, %s' % (k, p, vtext(v), want), ip.target_loc(st), trailtext(s))
        forall(ip, s, chk)
    return h


HANDLERS = [
    (r'^%s::Elem\(\)$' % ELEM, h_default),
    (r'^%s::Elem\(%s const&\)$' % (ELEM, ELEM), h_copy),
    (r'^%s::Elem\(%s&&\)$' % (ELEM, ELEM), h_move),
    (r'^%s::~Elem\(\)$' % ELEM, h_dtor),
    (r'^%s::operator=\(%s const&\)' % (ELEM, ELEM), h_assign),
    (r'^%s::operator=\(%s&&\)' % (ELEM, ELEM), h_massign),
    (r'^%s::operator<\(' % ELEM, h_cmp('<')),
    (r'^%s::operator>\(' % ELEM, h_cmp('>')),
    (r'^%s::operator<=\(' % ELEM, h_cmp('<=')),
    (r'^%s::operator>=\(' % ELEM, h_cmp('>=')),
    (r'^%s::operator==\(' % ELEM, h_cmp('==')),
    (r'^%s::operator!=\(' % ELEM, h_cmp('!=')),
    (r'^vf_live$', h_region('live')),
    (r'^vf_raw$', h_region('raw')),
    (r'^vf_assume$', h_assume),
    (r'^vf_prove$', h_prove),
    (r'^vf_label$', h_label),
    (r'^vf_expect_raw$', h_expect('raw')),
    (r'^vf_expect_seq$', h_expect('seq')),
    (r'^vf_expect_all$', h_expect('all')),
    (r'^vf_expect_default$', h_expect('dflt')),
    (r'^vf_expect_alive$', h_expect('alive')),
]
