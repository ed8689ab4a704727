"""Text input fills the array exactly or is rejected."""
import re
from engine import build, lifecycle, words
from engine.interp import short, Unsupported
from engine.terms import *

TECHNIQUE = 'abstract interpretation: product of the parser with a specification automaton over all texts (finite control, affine relations between counters), event order rules on the reading functions'
LEVEL_NOTE = '''Arrays of one to three dimensions, several element and index types and layouts; texts of every length. The pass over the raw text and the pass that finds the extents are compared with automata of the accepted texts: whatever
reaches the array has been looked at to its end, values are separated by commas, the extents passed on are those of the text, the counters of the parser are accessed in bounds, and no well-formed text is refused. The conversion of one value
is the standard stream's. Texts with white space other than blanks are outside the property (documented).'''
EXPLANATION = '''Control of the parser is enumerated with the class of the character looked at; its counters are related to those of the specification (number of values in the current group, and in the first group, of each level) by an
affine domain; loops are iterated until nothing new arises. The functions that read values are required to take an opening brace, one item for each position in order into the matching sub-slice, and a closing brace, each looked at before
it is taken, and to test the stream after each value.'''
ASSUMPTIONS = ['std::string, std::remove, std::replace, std::count and std::istringstream behave as specified', 'texts are shorter than the range of the counters']

LAB_FORM = 'only texts of the form of an array are accepted'
LAB_EXT = 'the array gets the extents written'
LAB_BOUNDS = 'text and counters of the parser are accessed in bounds'
LAB_REF = 'well-formed text is not refused'
LAB_SEP = 'values separated only by blanks are noticed before blanks are removed'
LAB_READ = 'the array is filled from the text'
LAB_ORDER = 'one item for each position, in order, between braces'
LAB_TAKE = 'characters are looked at before they are taken'
LAB_FAIL = 'the stream is tested after each value'

PERMS = {1: ['RAJA::PERM_I'], 2: ['RAJA::PERM_IJ', 'RAJA::PERM_JI'], 3: ['RAJA::PERM_IJK', 'RAJA::PERM_KIJ']}
TYPES = (('int', 'long'), ('double', 'int'), ('std::string', 'int'))


def driver():
    out = ['#include <algorithm>', '#include <sstream>', '#include <string>', '#include "Array.hpp"', '#include "MallocBuffer.hpp"', '#include "input.hpp"']
    for nd in (1, 2, 3):
        for k, p in enumerate(PERMS[nd]):
            for t, ix in TYPES:
                out.append('extern "C" void vf_text%d_%d_%s( LvArray::Array< %s, %d, %s, %s, LvArray::MallocBuffer > & a, std::string const & s ) { LvArray::input::stringToArray( a, s ); }' % (nd, k, t[-6:], t, nd, p, ix))
    return '\n'.join(out)


def plain(dn):
    """a name without template arguments"""
    dn = re.sub(r'operator(<<|>>|<=|>=|<|>|->)', lambda m: 'operator' + {'<<': 'LS', '>>': 'RS', '<=': 'LE', '>=': 'GE', '<': 'LT', '>': 'GT', '->': 'AR'}[m.group(1)], dn)
    out, d = [], 0
    for c in dn:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out)


L, V = words.Lin, words.V


class Spec:
    def __init__(self, nd):
        self.nd = nd
        self.names = ['D%d' % k for k in range(nd)] + ['E%d' % k for k in range(nd)]

    def start(self, props):
        if any(p[0] == 'repl' for p in props):
            return ('C', False)
        if ('without', ' ') in props:
            return ('B', -1, None, (False,) * self.nd, False, True, False)
        return ('A', 0, False)

    def step(self, s, c, mark):
        if s[0] == 'A':
            _, mode, rej = s
            if c == ' ':
                mode = 2 if mode == 1 else mode
            elif c in ('{', '}', ','):
                mode = 0
            else:
                rej = rej or mode == 2
                mode = 1
            return [(('A', mode, rej), [])]
        if s[0] == 'C':
            return [(('C', s[1] or c == '}' and not mark), [])]
        _, lv, last, sets, rej, via, over = s
        if c not in ('{', '}', ','):
            c = 'v'
        if rej or over:
            return [(('B', -1, None, (False,) * self.nd, True, False, True), [])]
        bad = [(('B', -1, None, (False,) * self.nd, True, False, False), [])]
        # would more text make it well-formed
        if c == '{':
            via = via and last in (None, '{', ',') and lv + 1 < self.nd
        elif c == 'v':
            via = via and lv == self.nd - 1 and last in ('{', ',', 'v')
        elif c == ',':
            via = via and lv >= 0 and (last == 'v' or last == '}')
        else:
            via = via and lv >= 0 and (last == 'v' or last == '}')
        if c == '{':
            if lv + 1 >= self.nd:
                return bad
            return [(('B', lv + 1, c, sets, False, via, False), [('set', 'E%d' % (lv + 1), L(1))])]
        if lv < 0:
            return bad
        d, e = V('D%d' % lv), V('E%d' % lv)
        if c == ',':
            if last in ('{', ','):
                return bad
            return [(('B', lv, c, sets, False, via, False), [('set', 'E%d' % lv, e + L(1))])]
        if c == '}':
            if last == ',':
                return bad
            reset = ('set', 'E%d' % lv, L(1))
            up = lambda z: ('B', lv - 1, c, z, False, via, lv == 0)
            if not sets[lv]:
                return [(up(sets[:lv] + (True,) + sets[lv + 1:]), [('set', 'D%d' % lv, e), reset])]
            return [(up(sets), [('eq', d - e), reset]), (bad[0][0], [('ne', d - e)])]
        return [(('B', lv, c, sets, False, via, False), [])]

    def complete(self, s):
        if s[0] == 'A':
            return not s[2]
        if s[0] == 'C':
            return not s[1]
        return s[6] and not s[4]

    def viable(self, s):
        if s[0] == 'A':
            return not s[2]
        if s[0] == 'C':
            return True
        return s[5] and not s[4] and not s[6]

    def wellformed(self, s):
        if s[0] == 'B':
            return s[6] and not s[4] and s[5]
        return self.complete(s)


class Hooks:
    BOUNDS, REFUSED = LAB_BOUNDS, LAB_REF

    def __init__(self, nd, elem):
        self.nd, self.elem = nd, elem

    def start(self, w, st):
        w.fresh_content(st, ('ptr', ('arg', 1), L()), frozenset())

    def handlers(self):
        def key(p):
            return (p[1], repr(p[2]))

        def copy(w, st, i, a):
            w.content(st, a[1])
            st.strs[key(a[0])] = st.strs[key(a[1])]

        def begin(w, st, i, a):
            t = w.content(st, a[0])
            return ('ptr', ('chars', None, t.ver), L())

        def end(w, st, i, a):
            t = w.content(st, a[0])
            return ('ptr', ('chars', None, t.ver), V(('N', t.ver)))

        def size(w, st, i, a):
            return V(('N', w.content(st, a[0]).ver))

        def empty(w, st, i, a):
            return w.compare(st, 'eq', V(('N', w.content(st, a[0]).ver)), L())

        def at(w, st, i, a):
            t = w.content(st, a[0])
            if not isinstance(a[1], L):
                raise words.Unsupported('index')
            return ('ptr', ('chars', None, t.ver), a[1])

        def front(w, st, i, a):
            return ('ptr', ('chars', None, w.content(st, a[0]).ver), L())

        def whole(w, st, b, e):
            if not (isinstance(b, tuple) and isinstance(e, tuple) and b[0] == e[0] == 'ptr' and b[1] == e[1] and b[1][0] == 'chars' and b[2] == L() and e[2] == V(('N', b[1][2]))):
                raise words.Unsupported('part of a text')
            t = st.text
            if t is None or t.ver != b[1][2]:
                raise words.Unsupported('an earlier text')
            k = [k for k, v in st.strs.items() if v[0] == t.ver]
            if len(k) != 1:
                # the object the iterators were taken from is the one that was copied to last
                k = [x for x in k if x[0][0] == 'alloca'][-1:]
            if not k:
                raise words.Unsupported('which text')
            return k[0]

        def ch(w, st, p):
            m = st.mem.get((p[1], w.const(st, p[2]))) if isinstance(p, tuple) and p[0] == 'ptr' else None
            c = w.const(st, m[1]) if m else None
            if c is None:
                raise words.Unsupported('which character')
            return chr(c)

        def change(w, st, k, props):
            st.nver += 1
            st.strs[k] = (st.nver, frozenset(props))

        def remove(w, st, i, a):
            k = whole(w, st, a[0], a[1])
            c = ch(w, st, a[2])
            w.finish(st)
            if c == ' ':
                w.report(LAB_SEP, (st.text.ver, 'ok') in st.done, 'blanks are removed from a text in which values may be separated only by them', st, i)
            change(w, st, k, st.strs[k][1] | {('without', c), 'garbage'})
            return ('rem', k, c)

        def erase(w, st, i, a):
            k = key(a[0])
            if len(a) == 3 and isinstance(a[1], tuple) and a[1][0] == 'rem' and a[1][1] == k and 'garbage' in st.strs[k][1]:
                change(w, st, k, st.strs[k][1] - {'garbage'})
                return None
            raise words.Unsupported('erase')

        def replace(w, st, i, a):
            k = whole(w, st, a[0], a[1])
            x, y = ch(w, st, a[2]), ch(w, st, a[3])
            w.finish(st)
            change(w, st, k, st.strs[k][1] | {('repl', x, y)})

        def count(w, st, i, a):
            return words.UNK

        def find(w, st, i, a):
            t = w.content(st, a[0])
            s = w.string(a[1])
            return words.unk(('find', t.ver, s)) if s is not None else words.UNK

        def strlen(w, st, i, a):
            s = w.string(a[0])
            return L(len(s)) if s is not None else words.UNK

        def memcmp(w, st, i, a):
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                s = w.string(y)
                if s is not None and isinstance(x, tuple) and x[0] == 'ptr' and x[1][0] == 'chars' and x[2] == L():
                    return words.unk(('same', x[1][2], s))
            return words.UNK

        def compare(w, st, i, a):
            s = w.string(a[1])
            if len(a) == 2 and s is not None:
                return words.unk(('same', w.content(st, a[0]).ver, s))
            return words.UNK

        def insert(w, st, i, a):
            t = w.content(st, a[0])
            if w.string(a[2]) != ' ' or t.spec is None or len(a) != 3 or t.pend is None or t.mark or not isinstance(a[1], L) or st.aff.const(a[1] - V('P')) != 0:
                raise words.Unsupported('insert')
            t.mark = True
            # every position from here on moves by one
            w.drop(st, 'P')
            st.aff = st.aff.assign('P', V('P') + L(1))
            n = ('N', t.ver)
            for d in (st.env,):
                for x, v in list(d.items()):
                    if isinstance(v, L) and n in v.t or isinstance(v, tuple) and v[0] == 'ptr' and (n in v[2].t or v[1] == ('chars', None, t.ver)):
                        d[x] = words.UNK

        def stream(w, st, i, a):
            t = w.content(st, a[1])
            w.finish(st)
            st.strs[key(a[0])] = ('stream', st.strs[key(a[1])][1], (t.ver, 'ok') in st.done)

        def nop(w, st, i, a):
            return None

        def resize(w, st, i, a):
            t = st.text
            if t is None or len(a) != 3 or not (isinstance(a[2], tuple) and a[2][0] == 'ptr' and a[2][1] in w.cells):
                raise words.Unsupported('resize')
            w.finish(st)
            t = st.text
            ok = (t.ver, 'ok') in st.done
            if t.spec is not None and t.spec[0] != 'B':
                raise words.Unsupported('resize with another text')
            w.report(LAB_FORM, ok, 'a text is accepted that is not of the form of an array' if t.left == 0 else 'a text is accepted that has not been looked at to its end', st, i)
            n = w.const(st, a[1])
            if n != self.nd:
                w.report(LAB_EXT, False, '%r extents are passed on' % (a[1],), st, i)
            elif ok:
                es = {s for (b, o), (s, v) in st.mem.items() if b == a[2][1]}
                if len(es) != 1:
                    raise words.Unsupported('extents')
                es = es.pop()
                for k in range(n):
                    o = w.local(st, ('ptr', a[2][1], a[2][2] + L(es * k)), es, i)
                    v = st.mem.get((a[2][1], o), (0, words.UNK))[1]
                    if not t.spec or not isinstance(v, L):
                        raise words.Unsupported('extents not followed')
                    if w.sets(st)[k]:
                        good = st.aff.const(v - V('D%d' % k)) == 0
                        if not good and t.scans:
                            raise words.Unsupported('several passes over the text')
                        w.report(LAB_EXT, good, 'extent %d is not the number of items written at that level' % k, st, i)
            st.events += ('resize',)

        def clear(w, st, i, a):
            st.events += ('clear',)

        def read(w, st, i, a):
            s = None
            for x in a:
                if isinstance(x, tuple) and x[0] == 'ptr' and key(x) in st.strs and st.strs[key(x)][0] == 'stream':
                    s = st.strs[key(x)]
            w.report(LAB_READ, s is not None and ('repl', ',', ' ') in s[1] and 'garbage' not in s[1], 'the stream read from is not of the text with commas replaced', st, i)
            w.report(LAB_READ, 'resize' in st.events and 'read' not in st.events, 'values are read %s' % ('twice' if 'read' in st.events else 'before the array has its extents'), st, i)
            if s is not None and 'string' in self.elem:
                w.report(LAB_READ, s[2], 'a string before a closing brace would be read with it', st, i)
            st.events += ('read',)

        B = r'^std::(__cxx11::)?basic_string::'
        hs = [(B + r'basic_string\((std::(__cxx11::)?basic_string (const)?&|std::(__cxx11::)?basic_string&&)', copy), (B + r'operator=\((std::(__cxx11::)?basic_string)', copy), (B + r'(c?begin|data|c_str)\(', begin),
              (B + r'c?end\(', end), (B + r'(size|length)\(', size), (B + r'empty\(', empty), (B + r'(operator\[\]|at)\(', at), (B + r'front\(', front), (B + r'erase\(', erase), (B + r'insert\(unsigned long, char const\*\)', insert),
              (B + r'find', find), (B + r'compare\(', compare), (B + r'~', nop), (r'basic_istringstream::basic_istringstream\(std::(__cxx11::)?basic_string const', stream), (r'basic_istringstream::~', nop),
              (r'( |^)std::remove\(', remove), (r'( |^)std::replace\(', replace), (r'( |^)std::count\(', count), (r'^strlen$', strlen), (r'^memcmp$', memcmp), (r'char_traits::length', strlen),
              (r'std::allocator', nop), (r'LvArray::Array::resize\(', resize), (r'LvArray::Array::clear\(', clear), (r'LvArray::input::.*stream', read)]
        return hs

    def ret(self, w, st, i):
        if 'resize' in st.events:
            w.report(LAB_READ, 'read' in st.events, 'returns without reading values', st, i)
        elif 'clear' in st.events:
            ok = any(s[0] == 'same' and s[2] == '{}' and s[3:] == (0, True) or s[0] == 'not' and s[1] == 'same' and s[3] == '{}' and s[4:] == (0, False) for s in st.same)
            if not ok and any('{}' in s for s in st.same if not (s[0] == 'same' or s[0] == 'not' and s[1] == 'same')):
                raise words.Unsupported('empty array noticed another way')
            w.report(LAB_FORM, ok, 'a text that need not be {} gives an empty array', st, i)
        else:
            w.report(LAB_FORM, False, 'returns with the array as it was', st, i)


class W(words.Scan):
    def sets(self, st):
        return st.text.spec[3]

    def i_call(self, st, i):
        d = dict(i)
        d['dn'] = plain(i.get('dn', i.get('fn', '')))
        return words.Scan.i_call(self, st, d)


def scans(js, root):
    """one parser against its specification"""
    from engine.run import Result
    import sys
    sys.setrecursionlimit(20000)
    nd = int(root[7])
    elem = root.rsplit('_', 1)[1]
    res = Result(root)
    try:
        w = W(js, root, Spec(nd), Hooks(nd, elem))
        for (lab, loc), (n, bad) in w.run().items():
            if n:
                res.obl[lab] = res.obl.get(lab, 0) + n
            for what, tr in bad.items():
                res.obl[lab] = res.obl.get(lab, 0) + 1
                res.viol.append((lab, what, '%s | %s' % (loc, root), tr.split('; ')))
        res.paths = w.n
    except words.Unsupported as e:
        res.undecided.append(str(e))
    return res


SIZE = {'int': 4, 'long': 8, 'double': 8, 'float': 4}


def readers(ctx, js):
    """each function that reads a slice, once with values that can be read and once with values that cannot"""
    import copy
    names = {}

    def prepare(_):
        for f in js['functions']:
            m = re.search(r'ArraySlice<(.*), (\d+), (-?\d+), (int|long)>', f.get('dn', ''))
            if f['name'].startswith('vf_') or not m or 'stream' not in f['dn']:
                f['root'] = f['name'].startswith('vf_') and False
                continue
            t = m.group(1)
            names['vf_' + f['name']] = (32 if 'string' in t else SIZE.get(t), int(m.group(2)), int(m.group(3)), SIZE[m.group(4)], f)
            f['name'] = 'vf_' + f['name']
            f['root'] = True
        return js
    js = copy.deepcopy(js)
    if not any('ArraySlice<' in f.get('dn', '') and 'stream' in f['dn'] and not f['name'].startswith('vf_') for f in js['functions']):
        ctx.undecided.append(('readers', 'no function reads a slice from a stream'))
        return
    for mode in (0, 1):
        hs = [(r'istream.*::peek\(', h_peek), (r'istream.*::ignore\(\)', h_ignore), (r'operator>>', h_value), (r'::(fail|operator!)\(', mode_(mode)), (r'::(good|operator bool)\(', mode_(1 - mode)), (r'LvArray::input::.*stream', h_sub)]
        ctx.drive('c21r', text=driver(), lvir_args=ARGS, prepare=prepare if mode == 0 else (lambda _: js), handlers=hs + lifecycle.HANDLERS, setup=lambda ip, st, args: enter(ip, st, names), finish=lambda ip, f, outs, rep: judge(ip, f, outs, rep, names[f], mode))


def enter(ip, st, names):
    st.info['open'] = None


def h_peek(ip, fn, st, ins, a):
    p = Poly.of(fresh('peek'))
    st.info['peek'] = p
    st.env[ins['id']] = p


def h_ignore(ip, fn, st, ins, a):
    p = st.info.get('peek')
    c = next((c for c in (' ', '{', '}') if p is not None and st.facts.proves(eq(p, ord(c)))), None)
    if not ip.silent:
        ip.rep.check(c is not None, LAB_TAKE, 'a character is taken that need not be a blank or a brace', short(ins.get('loc')), lifecycle.trailtext(st))
    st.info['peek'] = None
    st.events.append(('take', c))
    st.env[ins['id']] = a[0]


def h_value(ip, fn, st, ins, a):
    st.info['peek'] = None
    st.events.append(('value', a[-1], None, ins))
    st.env[ins['id']] = a[0]


def mode_(r):
    def h(ip, fn, st, ins, a):
        st.events.append(('test',))
        st.env[ins['id']] = const(r)
    return h


def h_sub(ip, fn, st, ins, a):
    st.info['peek'] = None
    s = a[0]
    st.events.append(('sub', [ip.read(st, s + 8 * k, 8, 'ptr') for k in range(3)] + [a[1]], None, ins))


def flat(evs):
    """without passes over blanks"""
    out = []
    for e in evs:
        if e[0] in ('loop', 'gloop'):
            ps = e[3] if e[0] == 'loop' else e[1]
            if all(not [x for x in flat(p[0]) if x != ('take', ' ')] for p in ps):
                continue
            if e[0] == 'gloop':
                raise Unsupported('loop without a count')
            out.append(e)
        elif e[0] in ('take', 'value', 'test', 'sub') and e != ('take', ' '):
            out.append(e)
    return out


def tested(evs):
    return any(e[0] == 'test' or e[0] in ('loop', 'gloop') and any(tested(p[0]) for p in (e[3] if e[0] == 'loop' else e[1])) for e in evs)


def judge(ip, f, outs, rep, info, mode):
    es, nd, usd, ix, js = info
    if es is None:
        raise Unsupported('element')
    a = [ip_arg(ip, js, k) for k in range(2)]
    for kind, st, v in outs:
        if kind != 'ret':
            continue
        tr = lifecycle.trailtext(st)
        ev = flat(st.events)
        if mode == 1:
            if nd == 1:
                rep.check(not tested(st.events), LAB_FAIL, 'a value that could not be read is passed over', f, tr)
            continue
        sl, dims = (st.env[x['id']] for x in js['args'][:2])
        data, sdims, strides = (ip.read(st, sl + 8 * k, 8, 'ptr') for k in range(3))
        n = ip.read(st, dims, ix, 'i%d' % (8 * ix))
        loops = [e for e in ev if e[0] == 'loop']
        form = [e[0] if e[0] != 'take' else e for e in ev]
        if not loops:
            ok = form == [('take', '{'), ('take', '}')] and st.facts.proves(le(n, 0))
            rep.check(ok, LAB_ORDER, 'takes %s' % form, f, tr)
            continue
        rep.check(form == [('take', '{'), 'loop', ('take', '}')], LAB_ORDER, 'takes %s' % form, f, tr)
        _, k, N, passes = loops[0]
        k = Poly.of(Atom.byid[k])
        rep.check(st.facts.proves(eq(N, n)), LAB_ORDER, '%r items are read, the extent is %r' % (N, n), f, tr)
        s0 = const(1) if usd == 0 else ip.read(st, strides, ix, 'i%d' % (8 * ix))
        at = data + k * s0 * es
        for evs, dec in passes:
            x = flat(evs)
            if nd == 1:
                ok = [y[0] for y in x] == ['value', 'test']
                if [y[0] for y in x] == ['value']:
                    rep.fail(LAB_FAIL, 'the stream is not tested after a value', f, tr)
                    continue
                rep.check(ok and x[0][1] == at, LAB_ORDER, 'item %r: %s, expected at %r' % (k, [y[:2] for y in x], at), f, tr)
            else:
                ok = [y[0] for y in x] == ['sub'] and x[0][1][0] == at and x[0][1][1] == sdims + ix and x[0][1][2] == strides + ix and x[0][1][3] == dims + ix
                rep.check(ok, LAB_ORDER, 'item %r: %s, expected at %r' % (k, [y[:2] for y in x], at), f, tr)


def ip_arg(ip, js, k):
    return js['args'][k]['id']


ARGS = ('--opaque', r'LvArray::Array<.*>::(resize|clear)|^std::(__cxx11::|istream|basic_|ostream)|std::(count|remove|replace)<|std::.*operator>>', '--keep', 'LvArray::input::.*Slice<.*stream')


def run(ctx):
    js = build.compile_ir('c21', ('NDEBUG',), ARGS, (), driver())
    readers(ctx, js)
    ctx.parallel(js, 'checks.C21', 'scans', [f['name'] for f in js['functions'] if f['name'].startswith('vf_text') and not (f['name'].startswith('vf_text3_1'))])
