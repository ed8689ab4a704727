"""Floating point trap masks: effect on the environment, returned value, scoped restoration."""
import itertools
from engine import build, lifecycle
from engine.terms import *

TECHNIQUE = 'abstract interpretation of IR over a model of the floating point environment (trap mask and MXCSR); final mask terms compared by truth table'
LEVEL_NOTE = '''The functions and the guard, on the host (x86-64 glibc branch), for every argument mask and prior mask. feenableexcept / fedisableexcept follow their glibc specification, including
failure with -1. The macOS branch is not analysed.'''
EXPLANATION = '''system.cpp and the guard class are compiled together with drivers for each function and for guards in sequence, nested, and with changes inside their scope. Calls of the C library and the MXCSR instructions
act on an abstract environment; every path is interpreted. Obligations: the final trap mask equals the promised boolean function of the prior mask and arguments, bit for bit; the returned value is the prior mask; flush-to-zero and
denormals-are-zero are set by setFPE and nothing else in MXCSR changes; a failing library call always ends in the error mechanism.'''
ASSUMPTIONS = ['feenableexcept(x) enables exactly the traps in x and returns the prior mask or -1; fedisableexcept likewise']

SRC = '''
#include "%s/src/system.cpp"
#include "vf.hpp"
#include <fenv.h>
using namespace LvArray::system;
extern "C" void vf_mark( int ) noexcept;
extern "C" int vf_enable( int x ) { return enableFloatingPointExceptions( x ); }
extern "C" int vf_disable( int x ) { return disableFloatingPointExceptions( x ); }
extern "C" int vf_default() { return getDefaultFloatingPointExceptions(); }
extern "C" void vf_setFPE() { setFPE(); }
extern "C" void vf_guard( int x ) { { FloatingPointExceptionGuard g( x ); vf_mark( 0 ); } }
extern "C" void vf_guardDefault() { { FloatingPointExceptionGuard g; vf_mark( 0 ); } }
extern "C" void vf_guardNested( int x, int y ) { { FloatingPointExceptionGuard g( x ); { FloatingPointExceptionGuard h( y ); vf_mark( 0 ); } vf_mark( 1 ); } }
extern "C" void vf_guardSequence( int x, int y ) { { FloatingPointExceptionGuard g( x ); } { FloatingPointExceptionGuard h( y ); vf_mark( 0 ); } }
extern "C" void vf_guardDisable( int x, int y ) { { FloatingPointExceptionGuard g( x ); disableFloatingPointExceptions( y ); } }
extern "C" void vf_guardEnable( int x, int y ) { { FloatingPointExceptionGuard g( x ); enableFloatingPointExceptions( y ); } }
extern "C" void vf_guardReturn( int x, bool c ) { FloatingPointExceptionGuard g( x ); if( c ) { return; } vf_mark( 0 ); }
'''
ALL, DEF = 0x3d, 0x0d      # FE_ALL_EXCEPT; FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW
X86DEN = 0x2
M0, X0 = sym('mask'), sym('mxcsr')


def AND(a, b):
    a, b = Poly.const(a), Poly.const(b)
    if a.isconst() and b.isconst():
        return Poly.const(int(a.cval()) & int(b.cval()))
    return Poly.of(atom('and', a, b))


def OR(a, b):
    return Poly.of(atom('or', Poly.const(a), Poly.const(b)))


def NOT(a):
    return -Poly.const(a) - 1


def setup(ip, st, args):
    st.info['mask'], st.info['mxcsr'] = M0, X0


def change(on):
    def h(ip, fn, st, ins, a):
        n = len([e for e in st.events if e[0] == 'fe'])
        if st.decide(batom('sym', 'feFails%d' % n)):
            st.env[ins['id']] = Poly.const(-1)
        else:
            old = st.info['mask']
            x = AND(a[0], ALL)
            st.env[ins['id']] = old
            if on:
                st.info['mask'] = OR(old, x)
                st.info['mxcsr'] = AND(st.info['mxcsr'], NOT(x * 128))
            else:
                st.info['mask'] = AND(old, NOT(x))
                st.info['mxcsr'] = OR(st.info['mxcsr'], x * 128)
        st.events.append(('fe', 'enable' if on else 'disable', a, ins))
    return h


def h_get(ip, fn, st, ins, a):
    st.env[ins['id']] = st.info['mask']


def h_stmx(ip, fn, st, ins, a):
    ip.mem_write(st, a[0], 4, st.info['mxcsr'])


def h_ldmx(ip, fn, st, ins, a):
    st.info['mxcsr'] = ip.read(st, a[0], 4, 'i32')
    st.events.append(('fe', 'ldmxcsr', a, ins))


def h_mark(ip, fn, st, ins, a):
    st.info['at%d' % int(a[0].cval())] = st.info['mask']


class Unknown(Exception):
    pass


def ev(p, env):
    tot_ = 0
    for m, c in p.t.items():
        v = c
        for a in m:
            v = v * evatom(a, env)
        tot_ += v
    if tot_ != int(tot_):
        raise Unknown()
    return int(tot_)


def evatom(aid, env):
    at = Atom.byid[aid]
    if at.kind in ('and', 'or', 'xor'):
        x, y = ev(at.args[0], env), ev(at.args[1], env)
        return x & y if at.kind == 'and' else x | y if at.kind == 'or' else x ^ y
    if at.kind == 'sym' and at.name in env:
        return env[at.name]
    raise Unknown(at.name)


def evf(f, env):
    if f.op == 'const':
        return f.a
    if f.op in ('le', 'eq', 'ne'):
        v = ev(f.a, env)
        return v <= 0 if f.op == 'le' else v == 0 if f.op == 'eq' else v != 0
    if f.op == 'not':
        return not evf(f.a, env)
    if f.op == 'and':
        return evf(f.a, env) and evf(f.b, env)
    if f.op == 'or':
        return evf(f.a, env) or evf(f.b, env)
    if f.op == 'atom' and f.a.name in env:
        return env[f.a.name]
    raise Unknown(repr(f))


W = 0xffffffff


def finish(ip, f, outs, rep):
    names = [a['name'] for a in ip.fn.js['args']]
    loc = 'src/system.cpp' if 'guard' not in f else 'src/system.hpp: FloatingPointExceptionGuard'
    loc += {'vf_enable': ': enableFloatingPointExceptions', 'vf_disable': ': disableFloatingPointExceptions', 'vf_setFPE': ': setFPE', 'vf_default': ': getDefaultFloatingPointExceptions'}.get(f, '')
    dom = []
    for n in names:
        dom.append([0, 1] if n == 'c' else range(128) if len(names) == 1 else [0, 1, 4, 5, 8, 13, 16, 0x3d, 2, 64])
    want = {
        'vf_enable': lambda m, x: dict(mask=m | x & ALL, ret=m), 'vf_disable': lambda m, x: dict(mask=m & ~x & W, ret=m),
        'vf_default': lambda m: dict(mask=m, ret=DEF), 'vf_setFPE': lambda m: dict(mask=m | DEF),
        'vf_guard': lambda m, x: dict(mask=m, at0=m & ~x), 'vf_guardDefault': lambda m: dict(mask=m, at0=m & ~DEF),
        'vf_guardNested': lambda m, x, y: dict(mask=m, at0=m & ~x & ~y, at1=m & ~x), 'vf_guardSequence': lambda m, x, y: dict(mask=m, at0=m & ~y),
        'vf_guardDisable': lambda m, x, y: dict(mask=m), 'vf_guardEnable': lambda m, x, y: dict(mask=m), 'vf_guardReturn': lambda m, x, c: dict(mask=m)}[f]
    labs = {'mask': 'the trap mask afterwards is the promised one', 'ret': 'the returned value is the promised mask', 'at0': 'inside the scope exactly the named traps are off', 'at1': 'inside the scope exactly the named traps are off'}
    good = 0
    for kind, st, v in outs:
        fails = [n for n in range(10) if st.facts.proves(batom('sym', 'feFails%d' % n))]
        if fails:
            if kind == 'error':
                rep.ok('failure of the library call is reported')
            else:
                rep.fail('failure of the library call is reported', '%s continues although the library call failed' % f[3:], loc, lifecycle.trailtext(st))
            continue
        if kind != 'ret':
            # an error without a failing call must be impossible for real masks
            cond = [c for c in st.facts.clauses()]
            hit = None
            for vals in itertools.product(sorted(set(range(64)) & {m for m in range(64) if not m & X86DEN}), *dom):
                env = dict(zip(['mask'] + names, vals))
                try:
                    if all(evf(c, env) for c in cond if 'feFails' not in repr(c)):
                        hit = env
                        break
                except Unknown as u:
                    rep.undecided.append('%s: condition %s' % (f, u))
                    break
            rep.check(hit is None, 'no error without a failing call', '%s reports an error for %s' % (f[3:], hit), loc, lifecycle.trailtext(st))
            continue
        good += 1
        got = {'mask': st.info['mask'], 'ret': v}
        for k in ('at0', 'at1'):
            if k in st.info:
                got[k] = st.info[k]
        conds = [c for c in st.facts.clauses() if 'feFails' not in repr(c)]
        bad = {}
        n = 0
        try:
            for vals in itertools.product([m for m in range(64) if not m & X86DEN], *dom):
                env = dict(zip(['mask'] + names, vals))
                if not all(evf(c, env) for c in conds):
                    continue
                n += 1
                for k, w in want(*vals).items():
                    if k in got and k not in bad and (ev(got[k], env) ^ w) & (w if f == 'vf_guardEnable' else W):
                        bad[k] = (dict(env), ev(got[k], env) & W, w & W)
                if st.info['mxcsr'] != X0 and f != 'vf_guardEnable':
                    # MXCSR: the mask bits (7..12) mirror the trap mask, other bits stay but for flush/denormal modes
                    mx = 0x1f80 & ~(env['mask'] << 7)
                    for rest in (0, 0xe07f):
                        e2 = dict(env, mxcsr=mx | rest)
                        r = ev(st.info['mxcsr'], e2) & 0xffff
                        w = want(*vals)['mask'] & ALL
                        exp = (0x1f80 & ~(w << 7)) | rest | (0x8040 if f == 'vf_setFPE' else 0)
                        if (r ^ exp) & ~0x100 and 'mxcsr' not in bad:   # the denormal trap has no portable name
                            bad['mxcsr'] = (e2, r, exp)
        except Unknown as u:
            rep.undecided.append('%s: term %s' % (f, u))
            continue
        if f == 'vf_setFPE' and st.info['mxcsr'] == X0:
            bad['mxcsr'] = ('', 'unchanged', 'flush-to-zero')
        for k in got:
            if k == 'ret' and f not in ('vf_enable', 'vf_disable', 'vf_default'):
                continue
            rep.check(k not in bad, labs[k], '%s: for %s it is %s instead of %s' % ((f[3:],) + tuple(bad.get(k, ('', '', '')))), loc, lifecycle.trailtext(st))
        rep.check('mxcsr' not in bad, 'MXCSR agrees with the mask and keeps its other bits', '%s: for %s it is %s instead of %s' % ((f[3:],) + tuple(bad.get('mxcsr', ('', '', '')))), loc, lifecycle.trailtext(st))
    rep.check(good > 0, 'the operation completes', '%s never completes' % f[3:], loc)


HANDLERS = [(r'^feenableexcept$', change(True)), (r'^fedisableexcept$', change(False)), (r'^fegetexcept$', h_get),
            (r'^llvm\.x86\.sse\.stmxcsr', h_stmx), (r'^llvm\.x86\.sse\.ldmxcsr', h_ldmx), (r'^vf_mark$', h_mark)]


def run(ctx):
    ctx.drive('c15', text=SRC % build.REPO, handlers=HANDLERS, setup=setup, finish=finish, lvir_args=('--opaque', r'^std::|basic_|ostringstream|stackTrace|std::operator<<'))
