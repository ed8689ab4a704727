"""Checked integer conversion: exact over every ordered pair of integer types."""
from engine import build, interp
from engine.pwint import PW, Mod, TooComplex, rng
from engine.interp import short
from engine.run import repo_fns

TECHNIQUE = 'exact piecewise-affine interval analysis of the IR of every type pair; compile-time witnesses for the limits'
LEVEL_NOTE = '''Exact for all values of all 121 ordered pairs of the 11 built-in integer types on this platform (bool and extended types are not covered); limits are compared by static_assert for 14 arithmetic types. Trusts clang's IR.'''
EXPLANATION = '''For each ordered pair of integer types the conversion is instantiated and its IR interpreted over an exact partition of the source range into intervals with affine values. Obligations per interval: if it
returns, the value returned equals the argument and lies in the target range; if it reports an error, the argument lies outside the target range.'''

TYPES = [('c', 'char', 8, True), ('sc', 'signed char', 8, True), ('uc', 'unsigned char', 8, False), ('s', 'short', 16, True), ('us', 'unsigned short', 16, False),
         ('i', 'int', 32, True), ('u', 'unsigned int', 32, False), ('l', 'long', 64, True), ('ul', 'unsigned long', 64, False), ('ll', 'long long', 64, True), ('ull', 'unsigned long long', 64, False)]


def bounds(w, s):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def run(ctx):
    src = ['#include "vf.hpp"\n#include "limits.hpp"\n']
    pairs = {}
    for a, A, wa, sa in TYPES:
        for b, B, wb, sb in TYPES:
            n = 'vf_%s_%s' % (a, b)
            src.append('extern "C" %s %s( %s x ) { return LvArray::integerConversion< %s >( x ); }' % (B, n, A, B))
            pairs[n] = (A, wa, sa, B, wb, sb)
    ARITH = [t[1] for t in TYPES] + ['float', 'double', 'long double']
    src.append('extern "C" void vf_limits() {')
    for t in ARITH:
        for m in ('min', 'lowest', 'max', 'epsilon', 'denorm_min'):
            src.append('vf_prove( LvArray::NumericLimits< %s >::%s == std::numeric_limits< %s >::%s(), "NumericLimits< %s >::%s" );' % (t, m, t, m, t, m))
            if t != 'long double':
                src.append('{ constexpr LvArray::NumericLimitsNC< %s > nc; vf_prove( nc.%s == std::numeric_limits< %s >::%s(), "NumericLimitsNC< %s >::%s" ); }' % (t, m, t, m, t, m))
    src.append('}')
    ctx.drive('c14', text='\n'.join(src), only='^vf_limits$')
    js = build.compile_ir('c14', ('NDEBUG',), (), (), '\n'.join(src))
    m = interp.Module(js)
    pieces = 0
    for n, (A, wa, sa, B, wb, sb) in pairs.items():
        f = m.fns[n]
        ctx.roots.append(n)
        fs, c = repo_fns(f)
        ctx.functions |= fs
        ctx.calls += c
        lab = 'conversion keeps the value or reports an error'
        loc = next((short(i['loc']) for b in f.js['blocks'] for i in b['insts'] if i.get('loc') and 'limits.hpp' in short(i['loc'])), 'src/limits.hpp')
        tl, th = bounds(wb, sb)
        try:
            out = PW(f, wa, sa).run()
        except TooComplex as e:
            ctx.undecided.append((n, str(e)))
            continue
        ctx.paths += len(out)
        for lo, hi, kind, v in out:
            pieces += 1
            what = '%s -> %s on [%d, %d]' % (A, B, lo, hi)
            if kind == 'error':
                ctx.check(hi < tl or lo > th, lab, what + ' reports an error although the value fits', loc)
                ctx.check(v in (1,), lab, what + ' ends abnormally without calling the error mechanism', loc)
                continue
            if isinstance(v, Mod):
                ctx.fail(lab, what + ' returns a truncated value', loc)
                continue
            inside = lo >= tl and hi <= th
            good = False
            if inside:
                # signed reading must be x itself
                l, h = rng(v, lo, hi)
                S = 1 << (wb - 1)
                if sb and l >= S:
                    good = v.a == 1 and v.b == 2 * S
                else:
                    good = v.a == 1 and v.b == 0 and (not sb or h < S)
                good = good or (lo == hi and (v.at(lo) - ((2 * S) if sb and v.at(lo) >= S else 0)) == lo)
            ctx.check(good, lab, what + ' returns a different value' + ('' if inside else ' (the argument does not fit the target type)'), loc)
    ctx.extra['intervals'] = pieces
    ctx.extra['exhaustive'] = True
