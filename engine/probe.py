"""What the analyser assumes about the buffer operations declared in drivers/probe.hpp."""
from .terms import *
from .interp import Rec, short


def where_repo(ins):
    return short(ins.get('loc'))


def h_realloc(ip, fn, st, ins, a):
    buf, data, size, space, cap, es = a
    new = Poly.of(fresh('heap', 'base'))
    nb, _ = ip.base_of(new)
    ob, oo = ip.base_of(data)
    if ob is not None:
        st.log.append(Rec('cpy', base=nb, off=const(0), size=size * es, extra=(ob, oo)))
    elif not (data.isconst() and data.cval() == 0):
        st.log.append(Rec('havoc', base=nb, extra=fresh('hv')))
    st.events.append(('realloc', buf, data, size, space, cap, new, ins))
    st.info[('bytes', nb)] = cap * es
    st.env[ins['id']] = new


def h_event(kind):
    def h(ip, fn, st, ins, a):
        st.events.append((kind,) + tuple(a) + (ins,))
        if ins['ty'] != 'void':
            st.env[ins['id']] = ip.result(st, ins, 'space')
    return h


def h_nothing(ip, fn, st, ins, a):
    if ins['ty'] != 'void':
        st.env[ins['id']] = ip.result(st, ins)


HANDLERS = [
    (r'^vf_buf_realloc$', h_realloc),
    (r'^vf_buf_free$', h_event('free')),
    (r'^vf_buf_move$', h_event('move')),
    (r'^vf_buf_move_nested$', h_event('movenested')),
    (r'^vf_buf_touch$', h_event('touch')),
    (r'^vf_buf_space$', h_event('space')),
    (r'^vf_buf_name$', h_nothing),
]
