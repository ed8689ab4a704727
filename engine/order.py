"""Elements of a totally ordered type: each stands for a number, and comparisons compare the numbers."""
from . import fate, lifecycle
from .fate import cellread, EL
from .interp import Unsupported, short
from .terms import *

REL = {'<': lt, '>': gt, '<=': le, '>=': ge, '==': eq, '!=': ne}


def h_sorted(ip, fn, st, ins, a):
    """[a[0], a[0] + a[1]) is strictly increasing"""
    st.info['sorted'] = st.info.get('sorted', ()) + ((a[0], a[1], ip.base_of(a[0])[0]),)


def compare(rel):
    def h(ip, fn, st, ins, a):
        for p in a[:2]:
            b, off = ip.base_of(p)
            if b is None:
                raise Unsupported('a comparison of %r' % p)
            for i, (start, n, base) in enumerate(st.info.get('sorted', ())):
                if base == b:
                    read(ip, st, ins, p, start, n)
        st.env[ins['id']] = REL[rel](*(cellread(fate.source(ip, st, p)) for p in a[:2]))
    return h


LAB_IN = 'only positions of the range are looked at'


def moved(st):
    return any(e[0] == 'fate' for e in st.events[st.info.get('opstart', 0):])


def read(ip, st, ins, p, start, n):
    if moved(st):
        raise Unsupported('values are compared after some were moved')
    if ip.silent or 'opstart' not in st.info:
        return
    k = (p - start).divexact(fate.ES)
    if k is not None and 'batch' in st.info:
        ip.__dict__.setdefault('looks', []).append((k, const(1), st.facts.copy(), st, ins, start))
    fx = st.facts
    if k is None or fx.proves(ge(k, 0)) and fx.proves(lt(k, n)):
        ip.rep.ok(LAB_IN)
        return
    fx = fate.layout(st, fx.copy(), [p])
    if fx.contradictory() or fx.proves(ge(k, 0)) and fx.proves(lt(k, n)):
        ip.rep.ok(LAB_IN)
    elif fate.imprecise(k):
        raise Unsupported('imprecise position %r' % k)
    else:
        ip.rep.fail(LAB_IN, 'position %r of a range of %r is read' % (k, n), lifecycle.where(ip, st, ins), lifecycle.trailtext(st))


def h_has(ip, fn, st, ins, a):
    """one of the values [a[0], a[0] + a[1]) is the one at a[2]"""
    if ip.silent:
        return
    lab = lifecycle.str_arg(ip, ins['args'][3])
    fx = fate.layout(st, st.facts.copy(), [])
    b = ip.base_of(a[0])[0]
    v = cellread(a[2])
    if fx.contradictory():
        ip.rep.ok(lab)
        return
    for i in fate.closed_atoms(fx, ()):
        at = Atom.byid[i]
        if at.kind == 'init' and isinstance(at.args[1], Poly) and (b,) in at.args[1].t:
            k = (at.args[1] - a[0]).divexact(fate.ES)
            if k is not None and fx.proves(ge(k, 0)) and fx.proves(lt(k, a[1])) and fx.proves(eq(Poly.of(at), v)):
                ip.rep.ok(lab)
                return
    ip.rep.fail(lab, 'no position is known to hold the value', lifecycle.where(ip, st, ins), lifecycle.trailtext(st))


HANDLERS = [(r'^vf_sorted$', h_sorted), (r'^vf_has$', h_has)] + [(r'^%s::operator%s\(' % (EL, r), compare(r)) for r in REL]
