"""Error macro polarity, evaluation and effect."""
import re
from engine import build, interp, lifecycle
from engine.terms import *
from engine.interp import short

TECHNIQUE = 'path-condition equivalence by abstract interpretation of IR; effect traces of every macro expansion'
LEVEL_NOTE = '''Every path of every macro instantiated with opaque operands (int and double); exact for the relation, the number of evaluations and the effect. NaN operands aside. Trusts clang's
IR and that stream insertion returns.'''
EXPLANATION = '''Each macro of each family is expanded in a driver with opaque operand functions, compiled to IR without cutting error paths, and every path is
interpreted. Obligations per path: the effect (handler call, throw of the given type, print, nothing) occurs exactly on the paths whose condition entails the relation named by the macro; operands are evaluated
once, before the effect; the release form of assertions has no effect and no evaluation; the handler functions never install or call null.'''

OPS = {'EQ': '==', 'NE': '!=', 'GT': '>', 'GE': '>=', 'LT': '<', 'LE': '<='}
NEG = {'==': '!=', '!=': '==', '>': '<=', '>=': '<', '<': '>=', '<=': '>'}


def rel(op, a, b, fp):
    if fp:
        d = a - b
        if op in ('<',):
            return batom('flt0', d)
        if op == '>':
            return batom('flt0', -d)
        if op == '<=':
            return neg(batom('flt0', -d))
        if op == '>=':
            return neg(batom('flt0', d))
        if d.t[max(d.t)] < 0:
            d = -d
        f = batom('feq0', d)
        return f if op == '==' else neg(f)
    return {'==': eq, '!=': ne, '<': lt, '<=': le, '>': gt, '>=': ge}[op](a, b)


PRE = '''
#include "Macros.hpp"
#include <stdexcept>
struct TestError { TestError( std::string const & ) noexcept; TestError( TestError const & ) noexcept; ~TestError() noexcept; };
extern "C" { int vf_ai( int ) noexcept; int vf_bi( int ) noexcept; double vf_ad( double ) noexcept; double vf_bd( double ) noexcept; bool vf_c( bool ) noexcept; bool vf_d( bool ) noexcept;
char const * vf_msg() noexcept; void vf_after() noexcept; void vf_else() noexcept; }
'''


def drivers():
    src, spec = [PRE], {}

    def add(name, params, body, **kw):
        src.append('extern "C" void vf_t_%s( %s ) { %s vf_after(); }' % (name, params, body))
        spec['vf_t_' + name] = kw
    for n, op in OPS.items():
        for t, T, L in (('i', 'int', 'vf_ai( a ), vf_bi( b )'), ('d', 'double', 'vf_ad( a ), vf_bd( b )')):
            P = '%s a, %s b' % (T, T)
            add('ERROR_IF_%s_%s' % (n, t), P, 'LVARRAY_ERROR_IF_%s( %s );' % (n, L), op=op, eff='error', fp=t == 'd')
            add('ERROR_IF_%s_MSG_%s' % (n, t), P, 'LVARRAY_ERROR_IF_%s_MSG( %s, vf_msg() );' % (n, L), op=op, eff='error', fp=t == 'd', msg=1)
            add('THROW_IF_%s_%s' % (n, t), P, 'LVARRAY_THROW_IF_%s( %s, TestError );' % (n, L), op=op, eff='throw', fp=t == 'd')
            add('THROW_IF_%s_MSG_%s' % (n, t), P, 'LVARRAY_THROW_IF_%s_MSG( %s, vf_msg(), TestError );' % (n, L), op=op, eff='throw', fp=t == 'd', msg=1)
            if n in ('EQ', 'NE', 'GT', 'GE'):
                add('ASSERT_%s_%s' % (n, t), P, 'LVARRAY_ASSERT_%s( %s );' % (n, L), op=NEG[op], eff='error', fp=t == 'd', dbg=1)
                add('ASSERT_%s_MSG_%s' % (n, t), P, 'LVARRAY_ASSERT_%s_MSG( %s, vf_msg() );' % (n, L), op=NEG[op], eff='error', fp=t == 'd', dbg=1, msg=1)
    P = 'bool a, bool b'
    C = 'vf_c( a )'
    add('ERROR_IF', P, 'LVARRAY_ERROR_IF( %s, vf_msg() );' % C, b='a', eff='error', msg=1)
    add('ERROR_IF_or', P, 'LVARRAY_ERROR_IF( vf_c( a ) || vf_d( b ), vf_msg() );', b='or', eff='error', msg=1)
    add('THROW_IF', P, 'LVARRAY_THROW_IF( %s, vf_msg(), TestError );' % C, b='a', eff='throw', msg=1)
    add('THROW_IF_or', P, 'LVARRAY_THROW_IF( vf_c( a ) || vf_d( b ), vf_msg(), TestError );', b='or', eff='throw', msg=1)
    add('ASSERT', P, 'LVARRAY_ASSERT( %s );' % C, b='!a', eff='error', dbg=1)
    add('ASSERT_or', P, 'LVARRAY_ASSERT( vf_c( a ) || vf_d( b ) );', b='nor', eff='error', dbg=1)
    add('ASSERT_and', P, 'LVARRAY_ASSERT( vf_c( a ) && vf_d( b ) );', b='nand', eff='error', dbg=1)
    add('ASSERT_MSG', P, 'LVARRAY_ASSERT_MSG( vf_c( a ) || vf_d( b ), vf_msg() );', b='nor', eff='error', dbg=1, msg=1)
    add('WARNING_IF', P, 'LVARRAY_WARNING_IF( %s, vf_msg() );' % C, b='a', eff='print', msg=1)
    add('INFO_IF', P, 'LVARRAY_INFO_IF( %s, vf_msg() );' % C, b='a', eff='print', msg=1)
    add('ERROR', P, 'LVARRAY_ERROR( vf_msg() );', b='true', eff='error', msg=1)
    add('WARNING', P, 'LVARRAY_WARNING( vf_msg() );', b='true', eff='print', msg=1)
    add('INFO', P, 'LVARRAY_INFO( vf_msg() );', b='true', eff='print', msg=1)
    add('LOG', P, 'LVARRAY_LOG( vf_msg() );', b='true', eff='print', msg=1)
    for n, m in (('ERROR', 'LVARRAY_ERROR_IF( vf_d( b ), "" )'), ('THROW', 'LVARRAY_THROW_IF( vf_d( b ), "", TestError )'), ('ASSERT', 'LVARRAY_ASSERT( vf_d( b ) )'),
                 ('WARNING', 'LVARRAY_WARNING_IF( vf_d( b ), "" )'), ('INFO', 'LVARRAY_INFO_IF( vf_d( b ), "" )')):
        add('dangling_' + n, P, 'if( vf_c( a ) ) %s; else vf_else();' % m, dangling=n, eff={'ERROR': 'error', 'THROW': 'throw', 'ASSERT': 'error'}.get(n, 'print'), dbg=1 if n == 'ASSERT' else 0)
    return '\n'.join(src), spec


def value(kind):
    def h(ip, fn, st, ins, a):
        st.events.append(('eval', kind, a, ins))
        if ins['ty'] == 'i1':
            st.env[ins['id']] = ip.asbool(st, a[0])
        else:
            st.env[ins['id']] = a[0]
    return h


HANDLERS = [(r'^vf_a[id]$', value('a')), (r'^vf_b[id]$', value('b')), (r'^vf_c$', value('c')), (r'^vf_d$', value('d'))]


def effect(st):
    kinds = []
    for e in st.events:
        if e[0] == 'eval':
            continue
        n = e[1]
        if re.search(r'(^|::)callErrorHandler\(', n):
            kinds.append(('error', e))
        elif n == '__cxa_throw':
            kinds.append(('throw', e))
        elif re.search(r'^(abort|exit|_exit|std::terminate|__assert_fail)', n):
            kinds.append(('die', e))
        elif any('_ZSt4cout' in repr(a) or '_ZSt4cerr' in repr(a) for a in e[2] if isinstance(a, Poly)):
            kinds.append(('print', e))
    return kinds


def run(ctx):
    text, spec = drivers()
    for cfg, defs in (('release', ('NDEBUG',)), ('debug', ())):
        def finish(ip, f, outs, rep, cfg=cfg):
            s = spec[f]
            nm = 'LVARRAY_' + f[5:]
            dn = [x for x in f[5:].split('_')]
            lab = '%s (%s build)' % (nm, cfg)
            args = {a['name']: a for a in ip.fn.js['args']}
            live = not (s.get('dbg') and cfg == 'release')

            def argv(n, fp):
                return sym(n)
            seen = set()
            for kind, st, v in outs:
                if kind == 'error':
                    continue
                effs = effect(st)
                ev = [e[1] for e in st.events if e[0] == 'eval']
                after = any(e[1] == 'vf_after' for e in st.events)
                msgs = sum(1 for e in st.events if e[1] == 'vf_msg')
                loc = short(next((e[3].get('loc') for e in st.events if effs and e is effs[-1][1]), None)) if effs else f
                loc = 'src/Macros.hpp: ' + nm
                term = [k for k, _ in effs if k != 'print']
                hit = bool(effs)
                if 'op' in s:
                    cond = rel(s['op'], sym('a'), sym('b'), s['fp'])
                elif 'dangling' in s:
                    A, B = batom('sym', 'a'), batom('sym', 'b')
                    cond = conj(A, neg(B) if s['dangling'] == 'ASSERT' else B)
                    els = any(e[1] == 'vf_else' for e in st.events)
                    rep.check(st.facts.proves(neg(A)) == els, lab, 'binds the else branch of the surrounding if', loc, lifecycle.trailtext(st))
                else:
                    A, B = batom('sym', 'a'), batom('sym', 'b')
                    cond = {'a': A, '!a': neg(A), 'or': disj(A, B), 'nor': neg(disj(A, B)), 'nand': neg(conj(A, B)), 'true': TRUE}[s['b']]
                if not live:
                    rep.check(not effs and [x for x in ev if x != 'c' or 'dangling' not in s] == [] and not msgs and after, lab, 'an assertion has an effect or evaluates its operands in a release build', loc, lifecycle.trailtext(st))
                    continue
                if hit:
                    seen.add('hit')
                    rep.check(st.facts.proves(cond), lab, 'triggers although the condition %r need not hold' % (cond,), loc, lifecycle.trailtext(st))
                    if s.get('msg'):
                        rep.check(msgs == 1, lab, 'the message is evaluated %d times when triggered' % msgs, loc)
                    if s['eff'] in ('error', 'throw'):
                        rep.check(term and term[-1] == s['eff'] and len(term) == 1 and (not after or s['eff'] == 'error'), lab, 'does not end in %s alone: %s' % (s['eff'], term), loc, lifecycle.trailtext(st))
                    if s['eff'] == 'error':
                        rep.check([k for k, _ in effs][0] == 'print', lab, 'the message is not printed before the handler runs', loc)
                    if s['eff'] == 'throw':
                        t = effs[-1][1][2]
                        nme = repr(t[1])
                        rep.check('9TestError' in nme, lab, 'throws %s instead of the given type' % nme, loc)
                    if s['eff'] == 'print':
                        rep.check(after and not term, lab, 'does not continue after printing', loc)
                else:
                    seen.add('miss')
                    rep.check(st.facts.proves(neg(cond)), lab, 'does not trigger although the condition %r may hold' % (cond,), loc, lifecycle.trailtext(st))
                    rep.check(after and not effs and msgs == 0, lab, 'has an effect when the condition is false', loc, lifecycle.trailtext(st))
                    if 'op' in s:
                        rep.check(sorted(ev) == ['a', 'b'], lab, 'operands are not evaluated exactly once: %s' % ev, loc)
                    elif 'dangling' not in s:
                        rep.check(len(ev) == len(set(ev)), lab, 'the condition is evaluated more than once: %s' % ev, loc)
            if live:
                rep.check('hit' in seen, lab, 'never triggers', 'src/Macros.hpp: ' + nm)
        ctx.drive('c13', text=text, handlers=HANDLERS, defs=defs, lvir_args=('--no-cut', '--opaque', r'^std::|__gnu_cxx|ostringstream|basic_'), finish=finish, opts={'noret': True}, only='^vf_t_')
        run_handlers(ctx, cfg, defs)


SYS = '''
#include <functional>
#include "%s/src/system.cpp"
extern "C" void vf_installed() noexcept;
extern "C" void vf_h_set_call( std::function< void() > const & h ) { LvArray::system::setErrorHandler( h ); vf_installed(); LvArray::system::callErrorHandler(); }
extern "C" void vf_h_call() { LvArray::system::callErrorHandler(); }
extern "C" void vf_h_set2( std::function< void() > const & h, std::function< void() > const & g ) { LvArray::system::setErrorHandler( h ); LvArray::system::setErrorHandler( g ); vf_installed(); LvArray::system::callErrorHandler(); }
'''


def cell(ip, st, p):
    return ip.read(st, p, 8, 'i64')


def f_copy(ip, fn, st, ins, a):
    ip.mem_write(st, a[0], 8, cell(ip, st, a[1]))
    st.events.append(('fcopy', '', a, ins))
    if ins['ty'] == 'ptr':
        st.env[ins['id']] = a[0]


def f_null(neg_):
    def h(ip, fn, st, ins, a):
        f = eq(cell(ip, st, a[0]), 0)
        st.env[ins['id']] = neg(f) if neg_ else f
    return h


def f_call(ip, fn, st, ins, a):
    st.events.append(('invoke', '', [cell(ip, st, a[0]), a[0]], ins))


def f_dtor(ip, fn, st, ins, a):
    st.events.append(('fdtor', '', a, ins))
    ip.mem_write(st, a[0], 8, Poly.of(fresh('deadfn')))


HH = [(r'^std::function<void \(\)>::function\(std::function<void \(\)> (const&|&&)\)', f_copy),
      (r'^std::function<void \(\)>::operator=\(std::function<void \(\)> (const&|&&)\)', f_copy),
      (r'^std::function<void \(\)>::operator bool', f_null(True)),
      (r'^bool std::operator==<void>\(std::function', f_null(False)),
      (r'^bool std::operator!=<void>\(std::function', f_null(True)),
      (r'^std::function<void \(\)>::operator\(\)', f_call),
      (r'^std::function<void \(\)>::~function', f_dtor)]


def run_handlers(ctx, cfg, defs):
    def finish(ip, f, outs, rep):
        lab = 'error handler installation (%s build)' % cfg
        loc = 'src/system.cpp: setErrorHandler/callErrorHandler'
        n = 0
        for kind, st, v in outs:
            if kind == 'error':
                continue
            ev = st.events
            tr = lifecycle.trailtext(st)
            inst = [i for i, e in enumerate(ev) if e[1] == 'vf_installed']
            start = inst[0] if inst else 0
            inv = [e for e in ev[start:] if e[0] == 'invoke']
            die = [e for e in ev[start:] if e[0] == 'call' and re.search(r'^(abort|exit|_exit|std::terminate|std::abort)', e[1])]
            freed = [e[2][0] for e in ev if e[0] == 'call' and re.search(r'operator delete', e[1])]
            rep.check(len(freed) == len(set(map(repr, freed))), lab, 'a handler is released twice', loc, tr)
            dead = [repr(e[2][0]) for e in ev if e[0] == 'fdtor']
            for x in freed:
                rep.check(any(repr(x) == d for d in dead), lab, 'storage of a handler released without destroying it', loc, tr)
            if f == 'vf_h_call':
                n += 1
                rep.check(bool(inv) != bool(die), lab, 'calling the handler neither invokes it once nor aborts', loc, tr)
                for e in inv:
                    rep.check(st.facts.proves(ne(e[2][0], 0)), lab, 'an empty handler may be invoked', loc, tr)
                rep.check(len(inv) <= 1, lab, 'the handler is invoked more than once', loc, tr)
                continue
            # installed before calling?
            if not inst:
                continue   # stopped at the check
            h = 'g' if f == 'vf_h_set2' else 'h'
            hv = Poly.of(atom('init', '', Poly.of(atom('base', h)), 'i64'))
            early = [e for e in ev[:start] if e[0] == 'invoke' or (e[0] == 'call' and re.search(r'callErrorHandler|abort', e[1]))]
            if early:
                continue
            n += 1
            rep.check(st.facts.proves(ne(hv, 0)), lab, 'a null handler is accepted', loc, tr)
            rep.check(len(inv) == 1 and not die, lab, 'an installed handler is not the one called', loc, tr)
            for e in inv:
                rep.check(e[2][0] == hv, lab, 'the handler called is %r, not the one installed' % (e[2][0],), loc, tr)
                rep.check(not any(repr(e[2][1]) == repr(x) for x in freed), lab, 'the handler called was already released', loc, tr)
                src = [c for c in ev if c[0] == 'fcopy' and c[2][0] == e[2][1]]
                rep.check(bool(src) and e[2][1] != Poly.of(atom('base', h)), lab, 'the handler is not copied', loc, tr)
        rep.check(n > 0, lab, 'no path installs and calls a handler', loc)
    ctx.drive('c13h', text=SYS % build.REPO, handlers=HH, defs=defs, lvir_args=('--no-cut', '--opaque', r'^std::function|std::operator[=!]=<void>|basic_|ostringstream|stackTrace|std::operator<<'), finish=finish,
              opts={'noret': True}, only='^vf_h_')
