"""Signal dispositions and stack traces."""
import re
from engine import build, lifecycle
from engine.terms import *

TECHNIQUE = 'abstract interpretation of IR over models of the disposition table, the unwinder and the demangler; effect-order (typestate) obligations per path'
LEVEL_NOTE = '''Every path of the installation, reset, handler, demangling and trace functions (host, without addr2line). The unwinder may stop after any number of frames, a frame address may be null, symbol lookup and demangling may fail.
Library output functions are assumed to return.'''
EXPLANATION = '''system.cpp is compiled with drivers for each function; calls of signal, the handler table's map, _Unwind_Backtrace, dladdr and __cxa_demangle act on abstract models that take every outcome. Obligations: each fatal signal is
installed once and its previous disposition saved in its own slot; reset passes back exactly those; the exiting handler has put every handled signal back to SIG_DFL before the error handler runs, the other form does neither; the
unwind callback writes inside the frame buffer and only obtained frames are looked up; a name is built from a non-null buffer of the successful lookup and each demangled buffer is freed exactly once, after its last use.'''
ASSUMPTIONS = ['signal() returns the previous disposition; __cxa_demangle returns a new buffer iff it sets status 0; dladdr fills its result iff it returns non-zero']

FATAL = {1: 'HUP', 2: 'INT', 3: 'QUIT', 4: 'ILL', 5: 'TRAP', 6: 'ABRT', 7: 'BUS', 8: 'FPE', 11: 'SEGV', 13: 'PIPE', 15: 'TERM', 29: 'POLL', 31: 'SYS'}
UNCATCHABLE = {9, 19}

SRC = '''
#include "%s/src/system.cpp"
using namespace LvArray::system;
extern "C" void vf_mark() noexcept;
extern "C" void vf_install( void ( *h )( int ) ) { setSignalHandling( h ); vf_mark(); resetSignalHandling(); }
extern "C" void vf_reset() { resetSignalHandling(); }
extern "C" void vf_handler( int sig ) { stackTraceHandler( sig, true ); vf_mark(); }
extern "C" void vf_report( int sig ) { stackTraceHandler( sig, false ); vf_mark(); }
extern "C" void vf_demangle( char const * name ) { demangle( name ); }
extern "C" void vf_trace( bool lineInfo ) { stackTrace( lineInfo ); }
extern "C" void vf_symbols( bool lineInfo ) { stackTrace( lineInfo ); }
'''


# -- the table of previous dispositions, if it is a std::map
def cell(k):
    return Poly.of(atom('base', 'slot%d' % k))


def key_of(ip, st, p):
    k = ip.read(st, p, 4, 'i32')
    if not k.isconst():
        from engine.interp import Unsupported
        raise Unsupported('handler table indexed with an unknown signal')
    return int(k.cval())


def m_index(ip, fn, st, ins, a):
    k = key_of(ip, st, a[1])
    keys = st.info.get('map', ())
    if k not in keys:
        st.info['map'] = tuple(sorted(keys + (k,)))
        ip.mem_write(st, cell(k), 4, Poly.const(k))
        ip.mem_write(st, cell(k) + 8, 8, Poly.const(0))
    st.env[ins['id']] = cell(k) + 8


def m_begin(ip, fn, st, ins, a):
    keys = st.info.get('map', ())
    st.env[ins['id']] = cell(keys[0]) if keys else Poly.of(atom('base', 'slotEnd'))


def m_end(ip, fn, st, ins, a):
    st.env[ins['id']] = Poly.of(atom('base', 'slotEnd'))


def it(ip, st, p):
    return ip.read(st, p, 8, 'ptr')


def m_inc(ip, fn, st, ins, a):
    keys = st.info.get('map', ())
    cur = it(ip, st, a[0])
    n = [i for i, k in enumerate(keys) if cell(k) == cur]
    nxt = Poly.of(atom('base', 'slotEnd')) if not n or n[0] + 1 == len(keys) else cell(keys[n[0] + 1])
    ip.mem_write(st, a[0], 8, nxt)
    st.env[ins['id']] = a[0] if not re.search(r'operator\+\+\(int\)', ins['dn']) else cur


def m_deref(ip, fn, st, ins, a):
    st.env[ins['id']] = it(ip, st, a[0])


def m_cmp(neg_):
    def h(ip, fn, st, ins, a):
        same = it(ip, st, a[0]) == it(ip, st, a[1])
        st.env[ins['id']] = TRUE if same != neg_ else FALSE
    return h


def h_signal(ip, fn, st, ins, a):
    if not a[0].isconst():
        from engine.interp import Unsupported
        raise Unsupported('signal called for an unknown signal')
    n = len([e for e in st.events if e[0] == 'signal'])
    prev = Poly.of(atom('base', 'previous%d.%d' % (int(a[0].cval()), n)))
    st.env[ins['id']] = prev
    st.events.append(('signal', int(a[0].cval()), a[1], prev))


def h_mark(ip, fn, st, ins, a):
    st.events.append(('mark', '', None, None))


def h_sizes(ip, fn, st, ins, a):
    st.env[ins['id']] = Poly.const(len(st.info.get('map', ())))


MAP = r'^std::map<int, void \(\*\)\(int\).*>::'
TABLE = [(MAP + r'(operator\[\]|at)\(', m_index), (MAP + r'c?begin\(', m_begin), (MAP + r'c?end\(', m_end), (MAP + r'size\(', h_sizes), (r'^std::_Rb_tree_(const_)?iterator<.*>::operator\+\+\(', m_inc),
         (r'^std::_Rb_tree_(const_)?iterator<.*>::operator(\*|->)\(', m_deref), (r'^std::operator!=\(std::_Rb_tree', m_cmp(True)), (r'^std::operator==\(std::_Rb_tree', m_cmp(False)),
         (r'^std::_Rb_tree_(const_)?iterator<.*>::operator!=\(', m_cmp(True)), (r'^std::_Rb_tree_(const_)?iterator<.*>::operator==\(', m_cmp(False)),
         (r'^signal$', h_signal), (r'^vf_mark$', h_mark)]


# -- symbols
def h_demangle(ip, fn, st, ins, a):
    n = len([e for e in st.events if e[0] == 'demangle'])
    if st.decide(batom('sym', 'demangleFails%d' % n)):
        s = sym('status%d' % n)
        st.facts.add(ne(s, 0))
        r = Poly.const(0)
    else:
        s, r = Poly.const(0), Poly.of(atom('base', 'demangled%d' % n))
    if not (a[3].isconst() and a[3].cval() == 0):
        ip.mem_write(st, a[3], 4, s)
    st.env[ins['id']] = r
    st.events.append(('demangle', a, r, ins))


def h_free(ip, fn, st, ins, a):
    st.events.append(('free', a[0], None, ins))


def h_dladdr(ip, fn, st, ins, a):
    n = len([e for e in st.events if e[0] == 'dladdr'])
    full = ip.fn.name == 'vf_symbols'
    st.events.append(('dladdr', a[0], None, ins))
    if not full or st.decide(batom('sym', 'lookupFails%d' % n)):
        st.env[ins['id']] = Poly.const(0)
        return
    nosym = st.decide(batom('sym', 'noSymbol%d' % n))
    st.events.pop()
    ip.mem_write(st, a[1], 8, Poly.of(atom('base', 'fname%d' % n)))
    ip.mem_write(st, a[1] + 16, 8, Poly.const(0) if nosym else Poly.of(atom('base', 'sname%d' % n)))
    st.events.append(('dladdr', a[0], None, ins))
    st.env[ins['id']] = Poly.const(1)


def h_string(ip, fn, st, ins, a):
    st.events.append(('string', a[1], None, ins))


def h_getip(ip, fn, st, ins, a):
    n = st.info.get('frame', 0)
    b = batom('sym', 'nullFrame%d' % n)
    if st.info.get('null', n) == n and st.decide(b):
        st.info['null'] = n
        st.env[ins['id']] = Poly.const(0)
    else:
        f = sym('frame%d' % n)
        st.facts.add(ge(f, 1))
        st.env[ins['id']] = f


def h_unwind(ip, fn, st, ins, a):
    name = Atom.byid[ip.base_of(a[0])[0]].name
    if not name.startswith('@') or name[1:] not in ip.m.fns:
        from engine.interp import Unsupported
        raise Unsupported('unwind callback is not a known function')
    few = ip.fn.name == 'vf_symbols'
    res = []
    live = [st]
    for k in range(4 if few else 60):
        nxt = []
        for s in live:
            # the stack may end here
            e = s.copy()
            e.info['frames'] = k
            res.append((e, Poly.const(5)))
            s = s.copy()
            s.info['frame'] = k
            for kind, t, v in ip.enter(s, name[1:], [Poly.of(atom('base', 'context')), a[1]]):
                if kind != 'ret':
                    continue
                go = t.tri(eq(v, 0))
                if go is None:
                    from engine.interp import Unsupported
                    raise Unsupported('result of the unwind callback')
                if go:
                    nxt.append(t)
                else:
                    t.info['frames'] = k + 1
                    t.info['stopped'] = True
                    res.append((t, Poly.const(5)))
        live = nxt
        if not live:
            break
    if live and not few:
        st.info['runaway'] = True
        res.append((st, Poly.const(5)))
    return 'states', res


TRACE = [(r'^_Unwind_Backtrace$', h_unwind), (r'^_Unwind_GetIP$', h_getip), (r'^dladdr$', h_dladdr), (r'^(abi::)?__cxa_demangle$', h_demangle), (r'^(std::)?free$', h_free),
         (r'^std::(__cxx11::)?basic_string<.*>::basic_string(<.*>)?\(char const\*', h_string),
         (r'^std::(__cxx11::)?basic_string<.*>::(operator=|assign|append|operator\+=)\(char const\*', h_string)]


def access(ip, st, p, size, write, ins):
    b, off = ip.base_of(p)
    if b is None or b not in ip.alloca_size:
        return
    n = ip.alloca_size[b]
    size = Poly.const(size)
    ok = st.facts.proves(ge(off, 0)) and st.facts.proves(le(off + size, n))
    lab = 'accesses stay inside local buffers'
    if ok:
        ip.rep.ok(lab)
        if not write and size.isconst() and size.cval() <= 8:
            v = ip.read(st, p, int(size.cval()), 'i%d' % (8 * size.cval()))
            if isinstance(v, Poly) and len(v.t) == 1:
                m = next(iter(v.t))
                if len(m) == 1 and Atom.byid[m[0]].kind == 'init':
                    ip.rep.fail('only obtained frames are read', '%s reads byte %r of a local buffer, which nothing has filled' % (ip.fn.name[3:], off), 'src/system.cpp', lifecycle.trailtext(st))
    else:
        ip.rep.fail(lab, '%s %s byte %r of a local buffer of %d bytes' % (ip.fn.name[3:], 'writes' if write else 'reads', off, n), 'src/system.cpp', lifecycle.trailtext(st))


def finish(ip, f, outs, rep):
    loc = 'src/system.cpp: ' + {'vf_install': 'setSignalHandling/resetSignalHandling', 'vf_reset': 'resetSignalHandling', 'vf_handler': 'stackTraceHandler', 'vf_report': 'stackTraceHandler',
                                'vf_demangle': 'demangle', 'vf_trace': 'stackTrace', 'vf_symbols': 'stackTrace'}[f]
    n = 0
    for kind, st, v in outs:
        tr = lifecycle.trailtext(st)
        if kind != 'ret':
            rep.check(False, 'the function completes', '%s ends in %s' % (f[3:], kind), loc, tr)
            continue
        n += 1
        ev = st.events
        if any(e[0] == 'call' and re.search(r'^(sigaction|bsd_signal|sysv_signal)$', e[1]) for e in ev):
            rep.undecided.append(f + ': uses another signal interface')
            continue
        sig = [e for e in ev if e[0] == 'signal']
        if f == 'vf_install':
            cut = next(i for i, e in enumerate(ev) if e[0] == 'mark')
            a = [e for e in ev[:cut] if e[0] == 'signal']
            b = [e for e in ev[cut:] if e[0] == 'signal']
            h = Poly.of(atom('base', 'h'))
            for s, nm in FATAL.items():
                w = [e for e in a if e[1] == s]
                rep.check(len(w) == 1 and w[0][2] == h, 'each fatal signal gets the given handler', 'SIG%s is installed %d times%s' % (nm, len(w), '' if not w or w[0][2] == h else ' with something else'), loc)
                r = [e for e in b if e[1] == s]
                if w:
                    rep.check(len(r) == 1 and r[0][2] == w[0][3], 'reset passes back the disposition saved for that signal',
                              'SIG%s is reset %d times%s' % (nm, len(r), '' if not r or r[0][2] == w[0][3] else ', to %r instead of its previous disposition' % (r[0][2],)), loc)
            for e in a:
                rep.check(e[1] in FATAL or e[1] in UNCATCHABLE or any(x[1] == e[1] and x[2] == e[3] for x in b), 'only handled signals change', 'signal %d changes and is not reset' % e[1], loc)
            for e in b:
                rep.check(any(x[1] == e[1] for x in a), 'only handled signals change', 'reset changes signal %d, which was not installed' % e[1], loc)
        elif f == 'vf_reset':
            rep.check(not sig, 'only handled signals change', 'reset without installation changes signal dispositions', loc)
        elif f in ('vf_handler', 'vf_report'):
            calls = [i for i, e in enumerate(ev) if e[0] == 'call' and re.search(r'callErrorHandler\(', e[1])]
            if f == 'vf_report':
                rep.check(not calls and not sig, 'a report that does not exit changes nothing', 'stackTraceHandler( sig, false ) changes dispositions or calls the error handler', loc, tr)
                continue
            rep.check(len(calls) == 1, 'the exiting handler runs the error handler once', 'the error handler runs %d times' % len(calls), loc, tr)
            if not calls:
                continue
            for s, nm in FATAL.items():
                last = [e for e in ev[:calls[0]] if e[0] == 'signal' and e[1] == s]
                rep.check(last and last[-1][2] == Poly.const(0), 'default dispositions are back before the error handler runs', 'SIG%s is not back to its default when the error handler runs' % nm, loc, tr)
            rep.check(all(e[2] == Poly.const(0) for e in ev[calls[0]:] if e[0] == 'signal'), 'default dispositions are back before the error handler runs', 'a handler is installed again', loc, tr)
        else:
            symbols(ip, st, f, ev, rep, loc, tr)
            if f == 'vf_trace':
                if 'frames' not in st.info:
                    if any(e[0] == 'call' and 'backtrace' in e[1] for e in ev):
                        rep.undecided.append(f + ': uses another unwinder')
                        continue
                    rep.fail('every obtained frame is reported, in order', 'no frames are collected', loc, tr)
                k = st.info.get('frames', 0)
                if k and st.facts.proves(batom('sym', 'nullFrame%d' % (k - 1))):
                    k -= 1
                got = [repr(e[1]) for e in ev if e[0] == 'dladdr']
                if st.info.get('stopped') and k == st.info['frames']:
                    rep.check(len(got) >= 25, 'the documented number of frames is collected', 'the walk stops after %d frames although there are more' % len(got), loc, tr)
                first = max(0, k - len(got))
                rep.check(got == ['frame%d' % i for i in range(first, k)] and (len(got) >= 20 or first <= 2), 'every obtained frame is reported, in order', '%d frames are obtained but %s are reported' % (k, got), loc, tr)
                rep.check(not st.info.get('runaway'), 'collection ends', 'the unwind callback never stops the walk', loc, tr)
                for e in ev:
                    if e[0] == 'dladdr':
                        nm = repr(e[1])
                        rep.check(re.match(r'^frame\d+$', nm) or nm == '0', 'only obtained frames are looked up', 'looks up %s, which is not a frame address' % nm, loc, tr)
    rep.check(n > 0, 'the function completes', '%s never completes' % f[3:], loc)


def symbols(ip, st, f, ev, rep, loc, tr):
    made = [e for e in ev if e[0] == 'demangle']
    for e in made:
        a, r = e[1], e[2]
        if not (a[1].isconst() and a[1].cval() == 0):
            rep.undecided.append('demangling into a given buffer')
            continue
        rep.check(st.facts.proves(ne(a[0], 0)) or Atom.byid[ip.base_of(a[0])[0]].name.startswith('sname') if not a[0].isconst() else a[0].cval() != 0, 'the demangler gets a name', 'a null name is demangled', loc, tr)
        if r.isconst():
            continue
        freed = [i for i, x in enumerate(ev) if x[0] == 'free' and x[1] == r]
        rep.check(len(freed) == 1, 'a demangled buffer is freed once', 'a demangled buffer is freed %d times' % len(freed), loc, tr)
        for i in freed:
            rep.check(not any(x[0] == 'string' and x[1] == r for x in ev[i:]), 'a demangled buffer is not used after it was freed', 'the name is built from a freed buffer', loc, tr)
        rep.check(any(x[0] == 'string' and x[1] == r for x in ev), 'the demangled name is the result', 'the demangled name is not used', loc, tr)
    for e in ev:
        if e[0] == 'free':
            rep.check(e[1] == Poly.const(0) or any(m[2] == e[1] for m in made), 'only demangled buffers are freed', 'frees %r' % (e[1],), loc, tr)
        if e[0] == 'string':
            b, off = ip.base_of(e[1])
            nm = Atom.byid[b].name if b is not None else repr(e[1])
            ok = b is not None and (re.match(r'^(@|fname|sname|demangled|&)', nm) or nm == 'name' and st.facts.proves(ne(e[1], 0)))
            rep.check(ok, 'a name is built from a valid buffer', 'a string is built from %s' % nm, loc, tr)
    if f == 'vf_demangle' and not made:
        rep.check(st.facts.proves(eq(Poly.of(atom('base', 'name')), 0)), 'a name is demangled', 'a non-null name is not demangled', loc, tr)


OPQ = r'^std::|__gnu_cxx|basic_|ostringstream|std::operator'


def run(ctx):
    text = SRC % build.REPO
    ctx.drive('c16', text=text, handlers=TABLE, finish=finish, only='^vf_(install|reset|handler|report)$', opts={'concrete': True, 'noret': True},
              lvir_args=('--no-cut', '--opaque', OPQ + r'|^LvArray::system::(stackTrace|callErrorHandler)(\[abi:cxx11\])?\('))
    ctx.drive('c16t', text=text, handlers=TRACE, finish=finish, only='^vf_(demangle|trace|symbols)$', opts={'concrete': True, 'access': access, 'maxstates': 60000}, lvir_args=('--opaque', OPQ))
