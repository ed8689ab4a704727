"""Math wrappers agree with the standard functions they name (host)."""
from engine import build, interp, lifecycle
from engine.terms import *
from engine.interp import short

TECHNIQUE = 'value-congruence analysis of IR: wrapper result and standard-library result are the same term'
LEVEL_NOTE = '''Every host wrapper for float, double, int and long arguments; standard functions are uninterpreted, so agreement is for every argument value (NaN ordering in min/max included only through
the standard definition by comparison). Device code paths are not analysed.'''
EXPLANATION = '''For each wrapper and argument type a driver calls the wrapper and the standard function it names; both results are interpreted as terms over uninterpreted standard functions. Obligation: the terms are identical on
every path, in the promised precision, with arguments in the promised order.'''

FUN1 = ['sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'exp', 'log']
T = [('f', 'float'), ('d', 'double'), ('i', 'int'), ('l', 'long')]


def src():
    o = ['#include "math.hpp"\n#include <algorithm>\n#include <cmath>\n#include <cstdlib>\n#include "vf.hpp"\nnamespace m = LvArray::math;\nextern "C" void vf_same( double, double ) noexcept; extern "C" void vf_samef( float, float ) noexcept; extern "C" void vf_samei( long, long ) noexcept; extern "C" void vf_lab( char const * ) noexcept;']

    def add(n, params, lab, *body):
        o.append('extern "C" void vf_%s( %s ) { vf_lab( "%s" ); %s }' % (n, params, lab, ' '.join(body)))

    def same(t):
        return {'float': 'vf_samef', 'double': 'vf_same', 'int': 'vf_samei', 'long': 'vf_samei'}[t]
    for s, t in T:
        R = 'float' if t == 'float' else 'double'
        cast = '' if t in ('float', 'double') else 'double'
        for f in FUN1:
            add('%s_%s' % (f, s), '%s x' % t, f, 'vf_prove( std::is_same< decltype( m::%s( x ) ), %s >::value, "precision of %s" );' % (f, R, f), '%s( m::%s( x ), std::%s( %s(x) ) );' % (same(R), f, f, cast))
        add('invSqrt_%s' % s, '%s x' % t, 'invSqrt', 'vf_prove( std::is_same< decltype( m::invSqrt( x ) ), %s >::value, "precision of invSqrt" );' % R, '%s( m::invSqrt( x ), %s( 1 ) / std::sqrt( %s(x) ) );' % (same(R), R, cast))
        add('atan2_%s' % s, '%s y, %s x' % (t, t), 'atan2', 'vf_prove( std::is_same< decltype( m::atan2( y, x ) ), %s >::value, "precision of atan2" );' % R, '%s( m::atan2( y, x ), std::atan2( %s(y), %s(x) ) );' % (same(R), cast, cast))
        add('sincos_%s' % s, '%s x' % t, 'sincos', '%s a, b; m::sincos( x, a, b ); %s( a, std::sin( %s(x) ) ); %s( b, std::cos( %s(x) ) );' % (R, same(R), cast, same(R), cast))
        for f in ('min', 'max'):
            add('%s_%s' % (f, s), '%s a, %s b' % (t, t), f, 'vf_prove( std::is_same< decltype( m::%s( a, b ) ), %s >::value, "type of %s" );' % (f, t, f), '%s( m::%s( a, b ), std::%s( a, b ) );' % (same(t), f, f))
        add('abs_%s' % s, '%s x' % t, 'abs', 'vf_prove( std::is_same< decltype( m::abs( x ) ), %s >::value, "type of abs" );' % t, '%s( m::abs( x ), std::abs( x ) );' % same(t))
        add('square_%s' % s, '%s x' % t, 'square', 'vf_prove( std::is_same< decltype( m::square( x ) ), %s >::value, "type of square" );' % t, '%s( m::square( x ), x * x );' % same(t))
        add('convert_%s' % s, '%s x' % t, 'convert', 'vf_samei( m::convert< long >( x ), long( x ) ); vf_same( m::convert< double >( x ), double( x ) ); vf_samef( m::convert< float >( x ), float( x ) );')
        add('single_%s' % s, '%s x' % t, 'numValues', 'vf_prove( m::numValues< %s >() == 1, "numValues" ); vf_prove( std::is_same< m::SingleType< %s >, %s >::value, "SingleType" );' % (t, t, t))
        add('parts_%s' % s, '%s x' % t, 'getFirst/getSecond', '%s( m::getFirst( x ), x ); %s( m::getSecond( x ), x );' % (same(t), same(t)))
    return '\n'.join(o)


def h_same(ip, fn, st, ins, a):
    lab = 'std agreement of ' + st.info.get('label', '?')
    if a[0] == a[1] or st.facts.proves(eq(a[0], a[1])):
        ip.rep.ok(lab)
    else:
        ip.rep.fail(lab, '%s: %r instead of %r' % (ip.fn.dn[3:], a[0], a[1]), 'src/math.hpp: ' + st.info.get('label', '?'), lifecycle.trailtext(st))


def h_lab(ip, fn, st, ins, a):
    st.info['label'] = lifecycle.str_arg(ip, ins['args'][0])


NAMES = 'sqrt|sin|cos|tan|asin|acos|exp|log|atan2|fabs|atan|sinh|cosh|tanh|log10|log2|exp2|log1p|expm1|cbrt|pow|hypot|rsqrt'


def h_fn(ip, fn, st, ins, a):
    st.env[ins['id']] = Poly.of(atom('f', ins['dn'].split('(')[0], *a))


def h_abs(ip, fn, st, ins, a):
    st.env[ins['id']] = a[0] if st.decide(ge(a[0], 0)) else -a[0]


def h_sincos(s):
    def h(ip, fn, st, ins, a):
        sz = 4 if s else 8
        ip.mem_write(st, a[1], sz, Poly.of(atom('f', 'sin' + s, a[0])))
        ip.mem_write(st, a[2], sz, Poly.of(atom('f', 'cos' + s, a[0])))
    return h


HANDLERS = lifecycle.HANDLERS + [(r'^vf_same[fi]?$', h_same), (r'^vf_lab$', h_lab), (r'^(%s)f?l?$' % NAMES, h_fn), (r'^l?l?abs$', h_abs), (r'^sincos$', h_sincos('')), (r'^sincosf$', h_sincos('f'))]


def run(ctx):
    ctx.drive('c19', text=src(), handlers=HANDLERS, opts={})
