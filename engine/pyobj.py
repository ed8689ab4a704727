"""Typestate of Python objects: ownership of references, pending exceptions, tested results and access rights, followed
along every path of the functions that make up the Python interface. Loops are followed until the ghost state at their
head repeats, with the loop's own variables forgotten after the first round."""
import re
from engine import build, interp
from engine.interp import short, Unsupported
from engine.terms import *

PYINC = '/usr/include/python3.12'
UNITS = ['PyArray', 'PySortedArray', 'PyArrayOfArrays', 'PyArrayOfSets', 'PyCRSMatrix', 'numpyHelpers', 'pythonHelpers', 'python', 'PyFunc']
PUBLIC = ('createNumpyArrayImpl', 'createCupyArrayImpl', 'parseNumPyArray', 'getNumPyTypeObject', 'createPyListOfStrings', 'addTypeToModule',
          'isInstanceOf', 'callPyFunc', 'getModule', 'addPyLvArrayModule', 'import_array_wrapper', 'create')
ROOTS = '^_ZN7LvArray6python(8internal)?(' + '|'.join('%d%s' % (len(n), n) for n in PUBLIC) + ')|^PyInit_'
OPAQUE = '^Py_X?(INC|DEC)REF|^Py(Tuple|List)_SET_ITEM|^LvArray::system::|^std::.*(stream|string|char_traits)|^LvArray::python::(internal::)?get(NumPyType|NumPyTypeName|TypeIndexFromNumPy)\\('

LAB_TEST = 'the result of a step that can fail is tested before it is used'
LAB_EXC = 'failure is reported with an exception set'
LAB_NOEXC = 'success is reported with no exception set'
LAB_INIT = 'the wrapped container exists when it is used'
LAB_RANGE = 'positions and counts are in range when the container is asked'
LAB_VALS = 'values given to a container were converted to its type and are still alive'
LAB_FMT = 'arguments are converted into variables of the right kind'
LAB_LEVEL = 'a container is changed only when the access level allows it'
LAB_REFUSED = 'a refused operation changes nothing'
LAB_LEAK = 'every reference is released once or handed on'
LAB_OVER = 'only owned references are released'
LAB_GONE = 'no object is used after its last reference was given up'
LAB_RET = 'the caller is given a reference of its own'
LAB_CONV = 'converted values are of the type asked for, one after another, and as many as reported'
LAB_FREE = 'a destroyed object gives back its container, its references and its storage'

# result: new: reference or null with an exception | sure: reference, never null | lent: borrowed or null with an exception |
#         neg: negative with an exception on failure | zero: 0 with an exception on failure | val | void
# arguments: o object | O object or null | S object whose reference is taken | s likewise, on success only | - anything
API = [
    (r'^PyUnicode_From|^PyLong_From|^PyFloat_From|^PyBytes_From|^PyComplex_From', 'new', '---'),
    (r'^PyBool_FromLong$', 'sure', '-'),
    (r'^Py(Tuple|List|Dict|Set)_New$', 'new', '-'),
    (r'^PyImport_ImportModule$', 'new', '-'),
    (r'^PyImport_Import$|^PyObject_(Repr|Str|Type|Dir|GetIter|Iter_Next)$', 'new', 'o'),
    (r'^PyObject_GetAttrString$', 'new', 'o-'),
    (r'^PyObject_GetAttr$|^PyObject_GetItem$|^PySequence_GetItem$', 'new', 'oo'),
    (r'^PyObject_SetAttrString$', 'neg', 'o-o'),
    (r'^PyObject_CallObject$', 'new', 'oO'),
    (r'^PyObject_CallNoArgs$', 'new', 'o'),
    (r'^PyObject_Call$', 'new', 'ooO'),
    (r'^PyObject_IsInstance$|^PyObject_IsSubclass$|^PyObject_RichCompareBool$', 'neg', 'oo-'),
    (r'^PyModule_AddObject$', 'neg', 'o-s'),
    (r'^PyModule_AddObjectRef$|^PyDict_SetItemString$', 'neg', 'o-O'),
    (r'^PyModule_AddIntConstant$|^PyModule_AddStringConstant$', 'neg', 'o--'),
    (r'^PyModule_AddType$', 'neg', 'o-'),
    (r'^PyModule_Create2$', 'new', '--'),
    (r'^PyType_Ready$', 'neg', '-'),
    (r'^PyType_GenericNew$|^PyType_GenericAlloc$', 'new', '---'),
    (r'^PyTuple_SetItem$|^PyList_SetItem$', 'neg', 'o-S'),
    (r'^PyList_Append$', 'neg', 'oo'),
    (r'^Py(Tuple|List)_SET_ITEM\(', 'void', 'o-S'),
    (r'^PyTuple_Pack$', 'new', '-ooooooo'),
    (r'^Py(Tuple|List)_Size$|^PyObject_Size$|^PyObject_Length$', 'neg', 'o'),
    (r'^PyTuple_GetItem$|^PyList_GetItem$', 'lent', 'o-'),
    (r'^PyErr_(SetString|Format|SetObject|NoMemory|SetNone|BadArgument|BadInternalCall)$', 'raise', ''),
    (r'^PyErr_(Clear|Print|WriteUnraisable)$', 'clear', ''),
    (r'^PyErr_Occurred$', 'occurred', ''),
    (r'^Py_INCREF\(|^Py_IncRef$', 'inc', 'o'),
    (r'^Py_XINCREF\(|^LvArray::python::internal::xincref\(', 'inc', 'O'),
    (r'^Py_DECREF\(|^Py_DecRef$', 'dec', 'o'),
    (r'^Py_XDECREF\(|^LvArray::python::internal::xdecref\(', 'dec', 'O'),
    (r'^PyObject_(Free|Del)$|^PyObject_Free$', 'free', '-'),
    (r'^PyType_IsSubtype$', 'val', '--'),
    (r'^_?PyArg_ParseTuple(_SizeT)?$', 'parse', ''),
    (r'^_?PyObject_CallFunction(_SizeT)?$|^_?Py_BuildValue(_SizeT)?$|^_?PyObject_CallMethod(_SizeT)?$', 'format', ''),
    # NumPy
    (r'^_import_array$', 'neg', ''),
    (r'^PyArray_(NDIM|TYPE|SIZE|NBYTES|DIM|STRIDE|ITEMSIZE|FLAGS|CHKFLAGS|IS\w+|DIMS|SHAPE|STRIDES|DATA|BYTES)$', 'val', 'o-'),
    (r'^PyArray_Check(Exact)?$', 'val', 'o'),
    (r'^PyArray_(BASE|DESCR)$', 'val', 'o'),
    (r'^PyArray_CanCastSafely$', 'val', '--'),
    (r'^PyArray_Converter$', 'converter', 'o-'),
    (r'^PyArray_Cast$', 'new', 'o-'),
    (r'^PyArray_CastToType$', 'new', 'oS-'),
    (r'^PyArray_DescrFromType$', 'sure', '-'),
    (r'^PyArray_TypeObjectFromType$', 'new', '-'),
    (r'^PyArray_NewFromDescr$', 'new', 'oS------'),
    (r'^PyArray_New$', 'new', 'o--------'),
    (r'^PyArray_SimpleNewFromData$', 'new', '----'),
    (r'^PyArray_FROM_O$', 'new', 'o'),
    (r'^PyArray_FROM_OT$|^PyArray_FROM_OTF$', 'new', 'o--'),
    (r'^PyArray_FromAny$', 'new', 'oS----'),
    (r'^PyArray_SetBaseObject$', 'neg', 'oS'),
    (r'^PyArray_(ENABLE|CLEAR)FLAGS$', 'void', 'o-'),
    # the repository's own functions, at the contract their definitions are checked against
    (r'^LvArray::python::getNumPyTypeObject\(', 'new', '-'),
    (r'^LvArray::python::createPyListOfStrings\(', 'new', '--'),
    (r'^LvArray::python::internal::create(Numpy|Cupy)ArrayImpl\(', 'new', '------'),
    (r'^LvArray::python::create\(', 'new', '-'),
    (r'^LvArray::python::internal::create\(', 'new', '-'),
    (r'^LvArray::python::import_array_wrapper\(', 'false', ''),
    (r'^LvArray::python::internal::isInstanceOf\(', 'false', 'O-'),
    (r'^LvArray::python::addTypeToModule\(', 'false', 'o--'),
    (r'^LvArray::python::parseNumPyArray\(', 'values', '-o-'),
    (r'^LvArray::python::getPy\w+Type\(\)$', 'type', ''),
    (r'^LvArray::python::getModule\(', 'sret', ''),
    (r'^LvArray::python::internal::err\(', 'errbool', ''),
    (r'^LvArray::python::internal::getNumPyType\(', 'pair', ''),
]

READERS = ('getAccessLevel', 'repr', 'valueType', 'columnType', 'entryType', 'ndim', 'size', 'sizeOfArray', 'numRows', 'numColumns', 'isCompressed',
           'getSingleParameterResizeIndex', 'toNumPy', 'operator[]', 'getColumns', 'getEntries', 'getEntriesColumnsAndOffsets', 'setAccessLevel', 'numNonZeros')
CONST_WRITERS = ('addToRow', 'setSingleParameterResizeIndex')


def P(x):
    return x if isinstance(x, Poly) else None


class Py:
    def __init__(self, js):
        self.globs = {g['name']: g for g in js['globals']}
        self.slots = {}
        for g in js['globals']:
            for off, f in g.get('fns', []):
                self.slots[f] = (g.get('struct', ''), off)
        self.seen, self.unseen = set(), {}      # functions that look at the extents they were given; that use such extents
        self.virt = {}
        for v in js.get('virtuals', []):
            if 'Wrapper' in v['class']:
                self.virt.setdefault(v['class'].split('<')[0], {})[v['index']] = v
        # one wrapper per unit: the abstract one
        base = [c for c in self.virt if c.endswith('Base')] or list(self.virt)
        self.base = base[0] if len(base) == 1 else None

    # ---- ghost state
    def key(self, ip, p):
        if not isinstance(p, Poly) or (p.isconst() and p.cval() == 0):
            return None
        b, off = ip.base_of(p)
        if b is None or off.t:
            return None
        return b

    def credit(self, st, k):
        return st.info.get(('cr', k), 0)

    def add(self, st, k, n):
        st.info[('cr', k)] = st.info.get(('cr', k), 0) + n

    def is_static(self, k):
        return Atom.byid[k].name.startswith('@')

    def nonnull(self, st, p, k):
        nm = Atom.byid[k].name if k is not None else ''
        if k is not None and (nm[0] in '^&@'):
            return True
        return st.facts.proves(ne(p, 0))

    def use(self, ip, st, p, role, ins, what):
        """p is passed where an object is needed"""
        loc = short(ins.get('loc'))
        tr = lifetrail(st)
        if isinstance(p, Poly) and p.isconst():
            if role == 'O':
                return None
            ip.rep.fail(LAB_TEST, '%s is given a null object' % what, loc, tr)
            return None
        k = self.key(ip, p)
        if k is None:
            raise Unsupported('object %r' % (p,))
        given = k in Atom.addr and ip.base_of(Atom.addr[k])[0] == st.info.get('given')
        if st.info.get(('notnull', k)) is None and not given and not self.nonnull(st, p, k):
            if role != 'O':
                ip.rep.fail(LAB_TEST, '%s is given an object that may be null' % what, loc, tr)
        else:
            ip.rep.ok(LAB_TEST)
        if st.info.get(('gone', k)):
            ip.rep.fail(LAB_GONE, '%s is given an object whose last reference was given up' % what, loc, tr)
        else:
            ip.rep.ok(LAB_GONE)
        return k

    def new(self, st, name):
        a = fresh('^' + name, 'base')
        st.info[('cr', a.id)] = 1
        st.info[('made', a.id)] = True
        return Poly.of(a)

    def failing(self, st, why):
        s = st.copy()
        s.info['exc'] = True
        s.trail.append((why, TRUE))
        return s

    def release(self, ip, st, p, k, ins, what):
        if k is None:
            return
        if self.is_static(k):
            if st.info.get(('cr', k), 0) <= 0:
                ip.rep.fail(LAB_OVER, '%s releases a reference that is not owned' % what, short(ins.get('loc')), lifetrail(st))
            self.add(st, k, -1)
            return
        c = self.credit(st, k)
        own = c >= 1 or (k in Atom.addr and self.nonlocal_slot(ip, st, Atom.addr[k]) and not st.info.get(('lent', k)) and c == 0)
        ip.rep.check(own, LAB_OVER, '%s releases a reference that is not owned' % what, short(ins.get('loc')), lifetrail(st))
        self.add(st, k, -1)

    def nonlocal_slot(self, ip, st, addr):
        b, _ = ip.base_of(addr)
        return b is not None and not Atom.byid[b].name.startswith('&')

    # ---- handlers
    def handlers(self):
        hs = []
        for rx, kind, roles in API:
            hs.append((re.compile(rx), self.api(kind, roles)))
        hs.append((re.compile(r'^_?Py|^_import'), self.unknown))
        hs.append((re.compile(r'^operator new|^operator delete|^std::|^LvArray::|^__cx|^strlen$'), self.plain))
        return hs

    def unknown(self, ip, fn, st, ins, a):
        raise Unsupported('interpreter function %s' % ins['dn'])

    def plain(self, ip, fn, st, ins, a):
        ip.opaque(st, ins, a, event=False)
        if ins['ty'] == 'ptr' and isinstance(st.env.get(ins['id']), Poly):
            pass

    def api(self, kind, roles):
        def h(ip, fn, st, ins, a):
            what = ins['dn'].split('(')[0].split('::')[-1]
            m = getattr(self, 'k_' + kind, None)
            if m:
                return m(ip, st, ins, a, what, roles)
            taken = []
            for r, x in zip(roles, a):
                if r in 'oOSs':
                    k = self.use(ip, st, x, 'O' if r in 'Os' else 'o', ins, what)
                    if r in 'Ss' and k is not None:
                        taken.append((r, x, k))
            for r, x, k in taken:
                if r == 'S':
                    self.release(ip, st, x, k, ins, what)
                    st.info[('held', k)] = True
            return self.finish(ip, st, ins, kind, what, a, [(x, k) for r, x, k in taken if r == 's'])
        return h

    def finish(self, ip, st, ins, kind, what, a, onok=()):
        i = ins['id']
        if kind == 'void':
            return
        if kind == 'val':
            v = ip.result(st, ins)
            if what == 'PyArray_DATA' and isinstance(v, Poly):
                k = self.key(ip, a[0])
                st.info[('data', self.key(ip, v))] = k
            if what in ('PyArray_SIZE', 'PyArray_NDIM'):
                v = Poly.of(atom('sym', '%s(%r)' % (what, a[0])))
                st.facts.add(ge(v, 0))
            if what == 'PyArray_TYPE':
                v = Poly.of(atom('sym', '%s(%r)' % (what, a[0])))
            if what == 'PyArray_CanCastSafely':
                st.info['safe'] = st.info.get('safe', ()) + ((a[0], a[1], v),)
            elif re.search('FLAGS|IS', what):
                st.info['flags'] = st.info.get('flags', ()) + ((what, self.key(ip, a[0]), v),)
            st.env[i] = v
            return
        if kind == 'sure':
            st.env[i] = self.new(st, what)
            return
        bad = self.failing(st, '%s fails' % what)
        good = st
        if kind == 'new':
            x = self.new(good, what)
            if what == 'PyArray_Cast':
                good.info[('cast', self.key(ip, x))] = (a[0], a[1])
                good.facts.add(eq(Poly.of(atom('sym', 'PyArray_TYPE(%r)' % x)), a[1]))
                good.facts.add(eq(Poly.of(atom('sym', 'PyArray_SIZE(%r)' % x)), Poly.of(atom('sym', 'PyArray_SIZE(%r)' % a[0]))))
                good.facts.add(eq(Poly.of(atom('sym', 'PyArray_NDIM(%r)' % x)), Poly.of(atom('sym', 'PyArray_NDIM(%r)' % a[0]))))
            return 'states', [(good, x), (bad, const(0))]
        if kind == 'lent':
            v = Poly.of(fresh('^' + what, 'base'))
            st.info[('lent', self.key(ip, v))] = True
            return 'states', [(good, v), (bad, const(0))]
        if kind == 'neg':
            v = Poly.of(fresh(what))
            good.facts.add(ge(v, 0))
            if what not in ('PyObject_IsInstance', 'PyObject_IsSubclass', 'PyObject_Size', 'PyTuple_Size', 'PyList_Size', 'PyObject_Length', 'PyObject_RichCompareBool'):
                v = const(0)
            for x, k in onok:
                self.release(ip, good, x, k, ins, what)
                good.info[('held', k)] = True
            return 'states', [(good, v), (bad, const(-1))]
        if kind == 'false':
            if ins['ty'] == 'i1':
                return 'states', [(good, TRUE), (bad, FALSE)]
            return 'states', [(good, const(1)), (bad, const(0))]
        raise Unsupported(kind)

    def k_raise(self, ip, st, ins, a, what, roles):
        st.info['exc'] = True
        st.env[ins['id']] = const(0)
        ip.rep.check(not st.info.get('changed'), LAB_REFUSED, '%s() has run before the call is refused' % st.info.get('changed'), short(ins.get('loc')), lifetrail(st))

    def k_clear(self, ip, st, ins, a, what, roles):
        st.info['exc'] = False

    def k_occurred(self, ip, st, ins, a, what, roles):
        st.env[ins['id']] = Poly.of(atom('base', '^pending')) if st.info.get('exc') else const(0)

    def k_errbool(self, ip, st, ins, a, what, roles):
        st.env[ins['id']] = TRUE if st.info.get('exc') else FALSE

    def k_inc(self, ip, st, ins, a, what, roles):
        k = self.use(ip, st, a[0], roles[0], ins, what)
        if k is not None:
            self.add(st, k, 1)

    def k_dec(self, ip, st, ins, a, what, roles):
        k = self.use(ip, st, a[0], roles[0], ins, what)
        if k is None:
            return
        self.release(ip, st, a[0], k, ins, what)
        if st.info.get(('made', k)) and self.credit(st, k) == 0 and not st.info.get(('held', k)):
            st.info[('gone', k)] = True

    def k_free(self, ip, st, ins, a, what, roles):
        k = self.key(ip, a[0])
        st.info[('freed', k)] = True

    def k_type(self, ip, st, ins, a, what, roles):
        st.env[ins['id']] = Poly.of(atom('base', '@type:' + what))

    def k_pair(self, ip, st, ins, a, what, roles):
        x = repr(a[0])
        st.env[ins['id']] = ('agg', {0: Poly.of(atom('sym', 'code of %s' % x)), 1: Poly.of(atom('sym', 'bytes of %s' % x))})

    def k_sret(self, ip, st, ins, a, what, roles):
        bad = self.failing(st, what + ' fails')
        ip.mem_write(st, a[0], 8, self.new(st, what))
        ip.mem_write(bad, a[0], 8, const(0))
        return 'states', [(st, None), (bad, None)]

    def k_values(self, ip, st, ins, a, what, roles):
        self.use(ip, st, a[1], 'o', ins, what)
        bad = self.failing(st, what + ' fails')
        for o in (0, 8, 16):
            ip.mem_write(bad, a[0] + o, 8, const(0))
        obj = self.new(st, 'converted')
        vals = Poly.of(fresh('^values', 'base'))
        n = Poly.of(fresh('count'))
        st.facts.add(ge(n, 0))
        st.info[('values', self.key(ip, vals))] = (self.key(ip, obj), a[2], n)
        ip.mem_write(st, a[0] + 16, 8, obj)
        ip.mem_write(st, a[0] + 8, 8, vals)
        ip.mem_write(st, a[0], 8, n)
        return 'states', [(st, None), (bad, None)]

    def k_converter(self, ip, st, ins, a, what, roles):
        self.use(ip, st, a[0], 'o', ins, what)
        bad = self.failing(st, what + ' fails')
        ip.mem_write(st, a[1], 8, self.new(st, 'array'))
        return 'states', [(st, const(1)), (bad, const(0))]

    def text(self, ip, p):
        k = self.key(ip, p)
        g = self.globs.get(Atom.byid[k].name[1:]) if k is not None else None
        if not g or 'str' not in g:
            raise Unsupported('format that is not a literal')
        return g['str'].rstrip('\0')

    WIDTH = {'i': 4, 'I': 4, 'h': 2, 'b': 1, 'p': 4, 'l': 8, 'k': 8, 'L': 8, 'K': 8, 'n': 8, 'd': 8, 'f': 4, 'O': 8, 's': 8, 'z': 8}

    def k_parse(self, ip, st, ins, a, what, roles):
        self.use(ip, st, a[0], 'o', ins, what)
        fmt = re.split('[:;]', self.text(ip, a[1]))[0]
        out, opt = list(a[2:]), False
        bad = self.failing(st, 'the arguments are refused')
        loc = short(ins.get('loc'))
        for c in fmt:
            if c == '|':
                opt = True
                continue
            if c not in self.WIDTH or not out:
                if not out:
                    ip.rep.fail(LAB_FMT, 'the format "%s" asks for more variables than are given' % fmt, loc)
                    return 'states', [(bad, const(0))]
                raise Unsupported('format %s' % fmt)
            v = out.pop(0)
            b, off = ip.base_of(v)
            n = ip.alloca_size.get(b)
            if n is not None and off.isconst():
                ip.rep.check(n - off.cval() >= self.WIDTH[c] and (n == self.WIDTH[c] or off.cval() or n > 8), LAB_FMT,
                             'format character %s writes %d bytes into a variable of %d' % (c, self.WIDTH[c], n), loc)
            if c == 'O':
                x = Poly.of(fresh('^argument', 'base'))
                st.info[('lent', self.key(ip, x))] = True
                if opt:
                    raise Unsupported('optional object')
            elif c in 'sz':
                x = Poly.of(fresh('^text', 'base'))
            else:
                x = Poly.of(fresh('argument'))
            ip.mem_write(st, v, self.WIDTH[c], x)
        ip.rep.check(not out, LAB_FMT, 'the format "%s" fills fewer variables than are given' % fmt, loc)
        return 'states', [(st, const(1)), (bad, const(0))]

    def k_format(self, ip, st, ins, a, what, roles):
        a = list(a)
        loc = short(ins.get('loc'))
        if 'Build' not in what:
            self.use(ip, st, a.pop(0), 'o', ins, what)
        if 'Method' in what:
            a.pop(0)
        f = a.pop(0)
        ops = ins['args'][-len(a):] if a else []
        if isinstance(f, Poly) and f.isconst() and f.cval() == 0:
            fmt = ''
        else:
            fmt = self.text(ip, f)
        for c in fmt:
            if c in '(), []':
                continue
            if not a:
                ip.rep.fail(LAB_FMT, 'the format "%s" uses more values than are given' % fmt, loc)
                break
            x = a.pop(0)
            if c in 'OSN':
                k = self.use(ip, st, x, 'o', ins, what)
                if c == 'N' and k is not None:
                    self.release(ip, st, x, k, ins, what)
                    st.info[('held', k)] = True
            elif c not in 'nlLkKidfszpbhI':
                raise Unsupported('format %s' % fmt)
        ip.rep.check(not a, LAB_FMT, 'the format "%s" uses fewer values than are given' % fmt, loc)
        return self.finish(ip, st, ins, 'new', what, a)

    # ---- calls through tables
    def indirect(self, ip, fn, st, ins, a):
        callee = ip.val(st, ins['callee'])
        k = self.key(ip, callee)
        addr = Atom.addr.get(k) if k is not None else None
        if addr is None:
            raise Unsupported('indirect call')
        tb, off = ip.base_of(addr)
        src = Atom.addr.get(tb)
        if src is None or not off.isconst():
            raise Unsupported('indirect call')
        ob, o2 = ip.base_of(src)
        if ob is not None and o2.isconst() and o2.cval() == 8 and int(off.cval()) == 320:
            return self.k_free(ip, st, ins, a, 'tp_free', '')
        if ob is None or (o2.t and o2.cval() != 0) or self.base is None:
            raise Unsupported('indirect call')
        slot = int(off.cval()) // 8
        v = self.virt[self.base].get(slot) or (self.virt[self.base].get(0) if slot in (0, 1) else None)
        if v is None:
            raise Unsupported('virtual function %d' % slot)
        return self.virtual(ip, st, ins, a, v)

    def epoch(self, st):
        return st.info.get('epoch', 0)

    def attr(self, st, obj, name, *args):
        return Poly.of(atom('sym', '%s of %r now %d(%s)' % (name, obj, self.epoch(st), ','.join(repr(x) for x in args))))

    def size(self, st, obj, name, *args):
        v = self.attr(st, obj, name, *args)
        st.facts.add(ge(v, 0))
        return v

    def virtual(self, ip, st, ins, a, v):
        name = v['name'].split('[abi')[0]
        sret = bool(ins.get('attr')) and any('sret' in x for x in ins['attr'])
        rest = list(a)
        ret = rest.pop(0) if sret else None
        obj = rest.pop(0)
        loc = short(ins.get('loc'))
        tr = lifetrail(st)
        k = self.key(ip, obj)
        if name.startswith('~'):
            st.info[('container', k)] = 'destroyed'
            return
        ip.rep.check(k is not None and self.nonnull(st, obj, k), LAB_INIT, '%s() of a container that may be missing' % name, loc, tr)
        want = self.pre(ip, st, name, v['dn'], obj, rest, loc)
        for lab, ok, msg in want:
            ip.rep.check(ok, lab, '%s(): %s' % (name, msg), loc, tr)
        const_ = v['dn'].endswith('const')
        if name not in READERS and (not const_ or name in CONST_WRITERS):
            lev = self.attr(st, obj, 'access level')
            ip.rep.check(st.facts.proves(ge(lev, 2)), LAB_LEVEL, '%s() is reached without the right to resize' % name, loc, tr)
            st.info['changed'] = name
        i = ins['id']
        if name == 'setAccessLevel':
            if not rest:
                raise Unsupported('level')
            ip.rep.check(not rest[0].isconst(), LAB_LEVEL, 'the level is set to %r whatever was asked' % rest[0], loc, tr)
            st.info['epoch'] = self.epoch(st) + 1
            return
        if name == 'getAccessLevel':
            st.env[i] = self.attr(st, obj, 'access level')
        elif name in ('valueType', 'columnType', 'entryType'):
            st.env[i] = Poly.of(atom('base', '^%s' % name))
        elif name in ('size', 'numRows', 'numColumns', 'ndim', 'sizeOfArray'):
            st.env[i] = self.size(st, obj, name, *rest)
        elif name == 'isCompressed':
            st.env[i] = batom('sym', 'compressed %r %d' % (obj, self.epoch(st)))
            if ins['ty'] != 'i1':
                raise Unsupported('kind of result')
        elif name == 'repr':
            ip.opaque(st, ins, [ret], event=False)
        elif name == 'getEntriesColumnsAndOffsets':
            out = [st]
            for o in (0, 8, 16):
                nxt = []
                for s in out:
                    b = self.failing(s, 'the array cannot be made')
                    ip.mem_write(s, ret + o, 8, self.new(s, 'part%d' % o))
                    ip.mem_write(b, ret + o, 8, const(0))
                    nxt += [s, b]
                out = nxt
            return 'states', [(s, None) for s in out]
        elif ins['ty'] == 'ptr':
            return self.finish(ip, st, ins, 'new', name, a)
        elif ins['ty'] != 'void':
            st.env[i] = ip.result(st, ins)
        if name not in READERS:
            st.info['epoch'] = self.epoch(st) + 1
            # the level is unchanged by anything but setAccessLevel
            st.facts.add(eq(self.attr(st, obj, 'access level'), Poly.of(atom('sym', '%s of %r now %d()' % ('access level', obj, self.epoch(st) - 1)))))

    def pre(self, ip, st, name, dn, obj, a, loc):
        f = st.facts

        def idx(x, n, last=False):
            ok = f.proves(ge(x, 0)) and f.proves((le if last else lt)(x, n))
            return LAB_RANGE, ok, 'position %r is not known to be in range' % x

        def nonneg(x, what='size'):
            return LAB_RANGE, f.proves(ge(x, 0)), '%s %r may be negative' % (what, x)

        def vals(p, n, ty):
            k = self.key(ip, p)
            t = st.info.get(('values', k)) if k is not None else None
            if t is None:
                return LAB_VALS, False, 'values do not come from a successful conversion'
            o, typ, cnt = t
            tk = self.key(ip, typ)
            nm = Atom.byid[tk].name if tk is not None else ''
            if not self.credit(st, o) >= 1:
                return LAB_VALS, False, 'the converted values are no longer alive'
            if nm != ty:
                return LAB_VALS, False, 'values were converted to %s' % nm
            return LAB_VALS, f.proves(eq(n, cnt)) or f.proves(le(n, cnt)), 'count %r is not known to be that of the values' % n

        S = lambda nm, *x: self.size(st, obj, nm, *x)
        try:
            if name == 'setSingleParameterResizeIndex':
                return [idx(a[0], S('ndim'))]
            if name == 'resize' and 'const*' in dn:
                seen = [ip.read(st, x, 8, 'i64') for x in st.info.get(('looked', self.key(ip, a[0])), ())]
                # an element that is bounded from below, but not by zero (one that is not bounded at all may belong to a path that does not exist)
                bad = [x for x in seen if f.proves(ge(x, -10 ** 6)) and not f.proves(ge(x, 0))]
                if not seen and not f.proves(le(S('ndim'), 0)):
                    self.unseen[ip.fn.name] = loc
                ok = not bad
                return [vals(a[0], S('ndim'), '@_ZTIx'), (LAB_RANGE, ok, 'an extent is not known to be nonnegative')]
            if name == 'resize':
                return [nonneg(x) for x in a]
            if name in ('getColumns', 'getEntries'):
                return [idx(a[0], S('numRows'))]
            if name in ('operator[]', 'sizeOfArray', 'eraseArray', 'eraseSet'):
                return [idx(a[0], S('size'))]
            if name == 'eraseFromArray':
                return [idx(a[0], S('size')), idx(a[1], S('sizeOfArray', a[0]))]
            if name == 'insertArray':
                return [idx(a[0], S('size'), True), vals(a[1], a[2], '^valueType')]
            if name == 'insertIntoArray':
                return [idx(a[0], S('size')), idx(a[1], S('sizeOfArray', a[0]), True), vals(a[2], a[3], '^valueType')]
            if name == 'insertSet':
                return [idx(a[0], S('size'), True), nonneg(a[1], 'capacity')]
            if name in ('insertIntoSet', 'removeFromSet'):
                return [idx(a[0], S('size')), vals(a[1], a[2], '^valueType')]
            if name in ('insert', 'remove'):
                return [vals(a[0], a[1], '^valueType')]
            if name in ('insertNonZeros', 'addToRow'):
                return [idx(a[0], S('numRows')), vals(a[1], a[3], '^columnType'), vals(a[2], a[3], '^entryType')]
            if name == 'removeNonZeros':
                return [idx(a[0], S('numRows')), vals(a[1], a[2], '^columnType')]
            if name == 'getEntriesColumnsAndOffsets':
                return [(LAB_RANGE, f.proves(ge(S('numRows'), 1)), 'the matrix may have no rows'),
                        (LAB_RANGE, f.proves(batom('sym', 'compressed %r %d' % (obj, self.epoch(st)))), 'the matrix may not be compressed')]
        except IndexError:
            raise Unsupported('arguments of ' + name)
        return []

    def access(self, ip, st, p, size, write, ins):
        """remember which of the converted values were looked at"""
        k = ip.base_of(p)[0] if isinstance(p, Poly) and not write else None
        if k is not None and ('values', k) in st.info:
            self.seen.add(ip.fn.name)
            st.info[('looked', k)] = st.info.get(('looked', k), ()) + (p,)

    # ---- loops
    def header(self, ip, fn, st, blk, pred):
        hs = st.info.get(('visit', blk), 0)
        if pred not in fn.loops[blk]['blocks'] if isinstance(fn.loops[blk], dict) else False:
            hs = 0
        net = self.net(ip, fn, st)
        ghost = tuple(sorted((k, v) for k, v in net.items() if v)), st.info.get('exc')
        if hs >= 2:
            old = st.info.get(('ghost', blk))
            if old == ghost:
                return None
            if hs >= 3:
                raise Unsupported('the ghost state of a loop does not settle')
        st = st.copy()
        new = {}
        for ins in fn.blocks[blk]['insts']:
            if ins['op'] != 'phi':
                break
            for v, b in ins['in']:
                if b == pred:
                    new[ins['id']] = ip.val(st, v)
        if hs >= 1:
            for i, v in list(new.items()):
                if isinstance(v, Poly):
                    b, off = ip.base_of(v)
                    if b is None:
                        x = Poly.of(fresh('round'))
                        if st.facts.proves(ge(v, 0)):
                            st.facts.add(ge(x, 0))
                        for old in st.info.get(('phi', i), ()):
                            if st.facts.proves(gt(v, old)):
                                st.facts.add(gt(x, old))
                            elif st.facts.proves(lt(v, old)):
                                st.facts.add(lt(x, old))
                        new[i] = x
                    else:
                        new[i] = Poly.of(Atom.byid[b]) + Poly.of(fresh('round'))
                else:
                    raise Unsupported('loop variable')
        for i, v in new.items():
            if isinstance(v, Poly):
                st.info[('phi', i)] = st.info.get(('phi', i), ()) + (v,)
        st.env.update(new)
        st.info[('visit', blk)] = hs + 1
        st.info[('ghost', blk)] = ghost
        return st

    # ---- ends
    def setup(self, ip, st, args):
        f = ip.fn
        js = f.js['args']
        dn = f.dn
        for k, a in enumerate(js):
            if a['ty'] == 'ptr' and not (dn.startswith('LvArray::python::internal::isInstanceOf') and k == 0):
                p = st.env[a['id']]
                b = self.key(ip, p)
                kind = self.slots.get(f.name, ('', 0))
                if 'Sequence' in kind[0] and k == 2:
                    continue
                st.info[('notnull', b)] = True
                st.facts.add(ge(p, 1))
                st.info[('lent', b)] = True
        if 'callPyFunc' in dn:
            # the caller hands over references to objects (checked where it is called)
            st.info['given'] = self.key(ip, st.env[js[1]['id']])
        if 'create(std::unique_ptr' in dn:
            ip.mem_write(st, st.env[js[-1]['id']], 8, Poly.of(atom('base', '^wrapper')))

    def end(self, ip, f, outs, rep):
        fn = ip.m.fns[f]
        dealloc = self.slots.get(f, ('', 0)) == ('struct._typeobject', 48)
        if f in self.unseen and f not in self.seen:
            rep.fail(LAB_RANGE, 'resize(): the extents are never looked at', self.unseen[f])
        work = list(outs)
        while work:
            kind, st, v = work.pop()
            if kind != 'ret' or st.facts.contradictory():
                continue
            try:
                self.one_end(ip, fn, f, st, v, rep, dealloc)
            except interp.Fork as fk:
                work += [(kind, s, v) for s in ip.fork(st, fk.cond)]

    def one_end(self, ip, fn, f, st, v, rep, dealloc):
        tr = lifetrail(st)
        loc = fn.dn.split('(')[0]
        exc = bool(st.info.get('exc'))
        sret = any('sret' in a for a in fn.js['args'])
        ret = None
        if sret:
            a = [a for a in fn.js['args'] if 'sret' in a][0]
            n = int(a['sret'])
            p = st.env.get(a['id']) or Poly.of(atom('base', a['name']))
            v = ip.mem_read(st, p + (n - 8), 8, 'ptr', {'loc': None}) if n <= 24 else None
        if isinstance(v, Poly) and (sret or self.rets(fn) == 'ptr'):
            if v.isconst() and v.cval() == 0:
                rep.check(exc, LAB_EXC, 'null is returned with no exception set', loc, tr)
            else:
                rep.check(not exc, LAB_NOEXC, 'an object is returned while an exception is set', loc, tr)
                ret = self.key(ip, v)
        elif self.rets(fn) in ('i64', 'i32') and isinstance(v, Poly) and f in self.slots:
            if st.facts.proves(le(v, -1)):
                rep.check(exc, LAB_EXC, 'failure is returned with no exception set', loc, tr)
            else:
                rep.check(not exc, LAB_NOEXC, 'success is returned while an exception is set', loc, tr)
        elif self.rets(fn) == 'i1' and isinstance(v, Formula):
            b = st.tri(v)
            if b is False:
                rep.check(exc, LAB_EXC, 'failure is returned with no exception set', loc, tr)
            elif b is True:
                rep.check(not exc, LAB_NOEXC, 'success is returned while an exception is set', loc, tr)
        if dealloc:
            self.dealloc(ip, fn, st, rep, loc, tr)
            return
        if ret is not None and re.search(r'\bparseNumPyArray\(', fn.dn):
            self.converted(ip, fn, st, rep, p, v, ret, loc, tr)
        self.balance(ip, fn, st, rep, loc, tr, ret)

    def converted(self, ip, fn, st, rep, p, obj, k, loc, tr):
        """what parseNumPyArray promises those who hand the values on (k_values)"""
        f = st.facts
        code = Poly.of(atom('sym', 'code of %r' % st.env.get(fn.js['args'][2]['id'], Poly.of(atom('base', fn.js['args'][2]['name'])))))
        ty, size, nd = (Poly.of(atom('sym', 'PyArray_%s(%r)' % (w, obj))) for w in ('TYPE', 'SIZE', 'NDIM'))
        n, vals = (ip.mem_read(st, p + o, 8, t, {'loc': None}) for o, t in ((0, 'i64'), (8, 'ptr')))
        rep.check(st.info.get(('data', self.key(ip, vals))) == k, LAB_CONV, 'the values are not those of the object kept alive', loc, tr)
        rep.check(isinstance(n, Poly) and f.proves(eq(n, size)), LAB_CONV, 'the number of values is %r' % n, loc, tr)
        rep.check(f.proves(eq(ty, code)), LAB_CONV, 'the values may be of another type than the one asked for', loc, tr)
        src = k
        if ('cast', k) in st.info:
            x, to = st.info[('cast', k)]
            src = self.key(ip, x)
            if isinstance(x, Poly):
                tx = Poly.of(atom('sym', 'PyArray_TYPE(%r)' % x))
                ok = any(f.proves(eq(u, tx)) and f.proves(eq(w, to)) and f.proves(ne(r, 0)) for u, w, r in st.info.get('safe', ()))
                rep.check(ok or f.proves(eq(tx, to)), LAB_CONV, 'the values were converted although that may lose some', loc, tr)
        elif not Atom.byid[k].name.startswith(('^array', 'array')):
            raise Unsupported('origin of the values')
        got = [(w, r) for w, o, r in st.info.get('flags', ()) if o in (k, src)]
        if any(w in ('PyArray_ISCARRAY', 'PyArray_ISCARRAY_RO') and f.proves(ne(r, 0)) for w, r in got):
            rep.ok(LAB_CONV)
        elif any(not w.startswith('PyArray_ISCARRAY') for w, r in got):
            raise Unsupported('storage of the values')
        else:
            rep.fail(LAB_CONV, 'the values may not lie one after another', loc, tr)
        rep.check(f.proves(le(nd, 1)), LAB_CONV, 'more than one dimension is accepted', loc, tr)

    def rets(self, fn):
        return fn.js.get('ret', 'void')

    def slots_written(self, ip, st):
        for i, r in enumerate(st.log):
            if r.kind == 'w' and r.size == 8 and isinstance(r.val, Poly):
                if r.base is not None and not Atom.byid[r.base].name.startswith('&'):
                    yield r.base, r.off

    def net(self, ip, fn, st):
        """references this activation still has to account for: those it owns less those kept in objects that outlive it"""
        held = {}
        seen = set()
        for b, off in self.slots_written(ip, st):
            if (b, off) in seen:
                continue
            seen.add((b, off))
            if any(b == self.key(ip, Poly.of(atom('base', a['name']))) and 'sret' in a for a in fn.js['args']):
                continue
            p = Poly.of(Atom.byid[b]) + off
            now = self.key(ip, ip.read(st, p, 8, 'ptr'))
            old = [k for k, q in Atom.addr.items() if q == p]
            if now is not None and not st.info.get(('gone', b)):
                held[now] = held.get(now, 0) + 1
            for k in old:
                if k != now and ('cr', k) in st.info:
                    held[k] = held.get(k, 0) - 1
        return {k[1]: c - held.get(k[1], 0) for k, c in st.info.items() if isinstance(k, tuple) and k[0] == 'cr'}

    def balance(self, ip, fn, st, rep, loc, tr, ret):
        net = self.net(ip, fn, st)
        if ret is not None:
            net.setdefault(ret, 0)
        for k, c in net.items():
            if self.is_static(k):
                rep.check(c in (0, 1), LAB_LEAK, 'references to %s do not balance' % Atom.byid[k].name, loc, tr)
                continue
            nm = Atom.byid[k].name.lstrip('^')
            if k == ret:
                if c == 1:
                    rep.ok(LAB_RET)
                    rep.check(not st.info.get(('gone', k)), LAB_GONE, 'the object returned was released', loc, tr)
                elif c < 1:
                    rep.fail(LAB_RET, 'the object returned (%s) is not owned by the caller' % nm, loc, tr)
                else:
                    rep.fail(LAB_LEAK, 'a reference to the object returned (%s) is kept' % nm, loc, tr)
            elif c > 0:
                rep.fail(LAB_LEAK, 'a reference to %s is never released' % nm, loc, tr)
            elif c < 0:
                rep.fail(LAB_OVER, 'a reference to %s is given up that is not owned' % nm, loc, tr)
            else:
                rep.ok(LAB_LEAK)

    def dealloc(self, ip, fn, st, rep, loc, tr):
        me = st.env.get(fn.js['args'][0]['id'])
        k = self.key(ip, me if me is not None else Poly.of(atom('base', fn.js['args'][0]['name'])))
        rep.check(bool(st.info.get(('freed', k))), LAB_FREE, 'the storage of the object is not given back', loc, tr)
        own = {}
        for kk, c in st.info.items():
            if isinstance(kk, tuple) and kk[0] == 'cr':
                own[kk[1]] = c
        rel = [x for x in own if own[x] == -1 and x in Atom.addr and ip.base_of(Atom.addr[x])[0] == k]
        # the type object may be null for an object that was never filled in
        rep.check(len(rel) >= 1, LAB_FREE, 'the reference the object holds is not released', loc, tr)
        for x, c in own.items():
            if x not in rel and c:
                rep.fail(LAB_LEAK, 'references to %s do not balance' % Atom.byid[x].name, loc, tr)
        cont = [x for x in st.info if isinstance(x, tuple) and x[0] == 'container']
        if not cont:
            # null on this path
            ok = any(q is not None and ip.base_of(q)[0] == k and st.facts.proves(eq(Poly.of(Atom.byid[x]), 0)) for x, q in list(Atom.addr.items()))
            rep.check(ok, LAB_FREE, 'the container the object wraps is not given back', loc, tr)
        else:
            rep.ok(LAB_FREE)


def lifetrail(st):
    return ['%s: %r' % (l, f) if f is not TRUE else l for l, f in st.trail if f is not None][-10:]


def analyse(ctx, keep):
    units = []
    for u in UNITS:
        text = '#include <algorithm>\n#include <array>\n#include "%s/src/python/%s.cpp"\n' % (build.REPO, u)
        units.append((u, ('NDEBUG',), ('--slot-roots', '--virtuals', '--no-cut', '--opaque', OPAQUE, '--roots', ROOTS), ('-fstandalone-debug', '-Dalways_inline=unused', '-I' + PYINC), text))
    build.prefetch(units)
    for src, defs, la, ex, text in units:
        box = {}

        def prepare(js):
            py = box['py'] = Py(js)
            js['functions'] = [f for f in js['functions'] if f['name'] in py.slots or re.search(ROOTS, f['name'])]
            for f in js['functions']:
                n = 'vf_%s_%s' % (src, f['name'])
                if f['name'] in py.slots:
                    py.slots[n] = py.slots.pop(f['name'])
                f['name'] = n
            opts.update(indirect=py.indirect, header=py.header, access=py.access)
            hooks[0], hooks[1] = py.setup, py.end
            handlers[:] = py.handlers()
            return js
        opts, hooks, handlers = {'maxstates': 4000}, [None, None], [None]
        ctx.drive(src, handlers=handlers, defs=defs, lvir_args=la, extra=ex, text=text, opts=opts,
                  setup=lambda ip, st, args: hooks[0](ip, st, args), finish=lambda ip, f, outs, rep: hooks[1](ip, f, outs, rep), keep=keep, prepare=prepare)


# ---- the classes between Python objects and containers, and owned references
LAB_ASK = 'an operation asks its container once for what Python asked, and hands its answer back'
LAB_TAKEN = 'an owned reference that is replaced or goes out of scope is released once'
LAB_COPY = 'a copy owns a reference of its own'
OPS = 'resize|insert|remove|eraseArray|eraseFromArray|insertArray|insertIntoArray|eraseSet|insertSet|insertIntoSet|removeFromSet|compress|insertNonZeros|removeNonZeros|addToRow\\w*'
WRAP_OPAQUE = ('^Py_X?(INC|DEC)REF|^LvArray::system::|^std::[^ ]*(stream|string|char_traits)|^LvArray::python::PythonError|'
               '^([^(]* )?LvArray::[A-Za-z]+<[^(]*>::(%s)[<(]' % OPS.replace('\\w', '[A-Za-z]'))


def w_ask(ip, fn, st, ins, a):
    name = text(ip, st, a[0])
    st.info['ask'] = (name, list(a[1:]), 'ask2' in ins['dn'])
    st.info['answers'] = ()


def text(ip, st, p):
    b, _ = ip.base_of(p)
    g = ip.m.globals.get(Atom.byid[b].name[1:]) if b is not None else None
    if not g or 'str' not in g:
        raise Unsupported('name of an operation')
    return g['str'].rstrip('\0')


def w_container(ip, fn, st, ins, a):
    loc = short(ins.get('loc'))
    name = re.search(r'>::(%s)[<(]' % OPS, ins['dn']).group(1)
    ask = st.info.get('ask')
    if ask is None:
        raise Unsupported('operation %s' % name)
    want, args, two = ask
    ok = name == want or name.startswith(want) and want == 'addToRow'
    ip.rep.check(ok, LAB_ASK, '%s() is called where %s() was asked for' % (name, want), loc)
    got = list(a)
    if any('sret' in x for x in ins.get('attr') or ()):
        raise Unsupported('result in memory')
    if two and len(got) == 3:
        p = got.pop()
        ip.rep.check(st.facts.proves(eq(got.pop(), 2)), LAB_ASK, 'the number of dimensions', loc)
        got += [ip.mem_read(st, p + 8 * k, 8, 'i64', ins) for k in range(2)]
    if ok:
        if len(got) < len(args) or len(got) > len(args) and not (name in ('resize',)):
            raise Unsupported('arguments of %s' % name)
        for k, (x, y) in enumerate(zip(args, got)):
            same = ip.base_of(x)[0] == ip.base_of(y)[0] if k == 0 else st.facts.proves(eq(x, y))
            ip.rep.check(same, LAB_ASK, 'argument %d of %s() is %r instead of %r' % (k, name, y, x), loc)
    r = ip.result(st, ins)
    st.info['answers'] += (r,)
    st.env[ins['id']] = r


def w_asked(ip, fn, st, ins, a):
    ans = st.info.get('answers', ())
    loc = short(ins.get('loc'))
    ip.rep.check(len(ans) == 1, LAB_ASK, 'the container is asked %d times' % len(ans), ip.fn.dn)
    if a and len(ans) == 1 and ans[0] is not None:
        ip.rep.check(st.facts.proves(eq(a[0], ans[0])), LAB_ASK, 'the answer handed back is not that of the container', ip.fn.dn)


def w_inc(ip, fn, st, ins, a):
    b, _ = ip.base_of(a[0])
    if b is None:
        if not (a[0].isconst() and a[0].cval() == 0):
            raise Unsupported('object')
        return
    c = st.info.get(('cr', b), 0)
    if c < 0:
        ip.rep.fail(LAB_GONE, 'a reference is added to an object after one was given up', short(ins.get('loc')))
    else:
        ip.rep.ok(LAB_GONE)
    st.info[('cr', b)] = c + 1


def w_dec(ip, fn, st, ins, a):
    b, _ = ip.base_of(a[0])
    if b is not None:
        st.info[('cr', b)] = st.info.get(('cr', b), 0) - 1


def w_new(ip, fn, st, ins, a):
    p = Poly.of(fresh('^made', 'base'))
    if ip.fn.name != 'vf_function':
        st.env[ins['id']] = p
        return
    bad = st.copy()
    st.info[('cr', ip.base_of(p)[0])] = 1
    st.facts.add(ge(p, 1))
    return 'states', [(st, p), (bad, const(0))]


def w_call(ip, fn, st, ins, a):
    n = st.facts.value(a[2]) if hasattr(st.facts, 'value') else (a[2].cval() if a[2].isconst() else None)
    if n is None:
        raise Unsupported('number of arguments')
    for k in range(int(n)):
        x = ip.mem_read(st, a[1] + 8 * k, 8, 'ptr', ins)
        good = isinstance(x, Poly) and not (x.isconst() and x.cval() == 0) and st.facts.proves(ne(x, 0))
        ip.rep.check(good, LAB_TEST, 'argument %d of the call may be null' % k, short(ins.get('loc')), lifetrail(st))
        b, _ = ip.base_of(x)
        if b is not None:
            st.info[('cr', b)] = st.info.get(('cr', b), 0) - 1
        ip.mem_write(st, a[1] + 8 * k, 8, const(0))


def w_setup(ip, st, args):
    if not ip.fn.name.startswith(('vf_ref', 'vf_function')):
        return
    for a in ip.fn.js['args']:
        p = st.env[a['id']]
        if not (a.get('name') == 'p'):
            st.info[('before', a['name'])] = ip.mem_read(st, p, 8, 'ptr', {'loc': None})
        elif ip.fn.name in ('vf_refAssign', 'vf_refTake'):
            st.info[('before', a['name'])] = p


def w_end(ip, f, outs, rep):
    if not f.startswith(('vf_ref', 'vf_function')):
        return
    fn = ip.m.fns[f]
    for kind, st, v in outs:
        if kind != 'ret':
            continue
        want = {}

        def add(x, n):
            b, _ = ip.base_of(x)
            if b is not None:
                want[b] = want.get(b, 0) + n
        for a in fn.js['args']:
            x = st.info.get(('before', a['name']))
            if x is None or f == 'vf_function' and a['name'] != 'f':
                continue
            add(x, -1)
            if f == 'vf_refRelease':
                add(x, 1)
            if a['name'] != 'p' and f != 'vf_refDrop':
                add(ip.mem_read(st, Poly.of(atom('base', a['name'])), 8, 'ptr', {'loc': None}), 1)
        for b in set(want) | {k[1] for k in st.info if isinstance(k, tuple) and k[0] == 'cr'}:
            c, w = st.info.get(('cr', b), 0), want.get(b, 0)
            lab = LAB_COPY if 'opy' in f and w >= 0 else LAB_TAKEN
            if c == w or st.facts.proves(eq(Poly.of(Atom.byid[b]), 0)):
                rep.ok(lab)
            else:
                rep.fail(lab, '%s: %d references too %s' % (Atom.byid[b].name.lstrip('^'), abs(c - w), 'many' if c > w else 'few'), fn.dn, lifetrail(st))


W_HANDLERS = [
    (r'^vf_ask2?$', w_ask), (r'^vf_asked0?$', w_asked), (r'^vf_new$', w_new),
    (r'^LvArray::python::internal::xincref\(|^Py_X?INCREF\(|^Py_IncRef$', w_inc), (r'^LvArray::python::internal::xdecref\(|^Py_X?DECREF\(|^Py_DecRef$', w_dec),
    (r'^LvArray::python::internal::callPyFunc\(', w_call),
    (r'LvArray::\w+<[^(]*>::(%s)[<(]' % OPS, w_container),
]


def wrappers(ctx, keep):
    from engine import lifecycle, probe
    ctx.drive('pywrap.cpp', handlers=W_HANDLERS + probe.HANDLERS + lifecycle.HANDLERS, lvir_args=('--opaque', WRAP_OPAQUE), extra=('-Dalways_inline=unused', '-I' + PYINC),
              opts={'maxstates': 400, 'esize': {}}, setup=w_setup, finish=w_end, keep=keep)


LAB_FLAG = 'an array made for NumPy is writable exactly when its data may be modified'
LAB_SHAPE = 'an array made for NumPy has the extents, byte strides, type and storage it was asked to have'


def n_setup(ip, st, args):
    st.info['asked'] = [st.env[a['id']] for a in ip.fn.js['args']]
    st.facts.add(ge(st.info['asked'][3], 0))


def n_make(ip, fn, st, ins, a):
    data, typ, ro, nd, dims, strides = st.info['asked']
    loc = short(ins.get('loc'))
    ro = ip.asbool(st, ro)
    readonly = st.decide(ro)
    if not a[6].isconst():
        raise Unsupported('flags')
    ip.rep.check(bool(int(a[6].cval()) & 0x400) == (not readonly), LAB_FLAG, 'flags %#x for data that %s be modified' % (int(a[6].cval()), 'may not' if readonly else 'may'), loc, lifetrail(st))
    ip.rep.check(st.facts.proves(eq(a[2], nd)), LAB_SHAPE, 'the number of dimensions is %r' % a[2], loc)
    ip.rep.check(st.facts.proves(eq(a[5], data)), LAB_SHAPE, 'the storage is %r' % a[5], loc)
    code, size = (Poly.of(atom('sym', '%s of %r' % (w, typ))) for w in ('code', 'bytes'))
    ip.rep.check(st.info.get(('descr', ip.base_of(a[1])[0])) == code, LAB_SHAPE, 'the type is not the one asked for', loc)
    if st.facts.proves(le(nd, 0)):
        return n_plain(ip, fn, st, ins, a)
    k = Poly.of(atom('sym', 'any dimension'))
    st.facts.add(ge(k, 0))
    st.facts.add(lt(k, nd))
    if st.facts.contradictory():
        return n_plain(ip, fn, st, ins, a)
    for what, p, want in (('extent', a[3], ip.mem_read(st, dims + 8 * k, 8, 'i64', ins)), ('stride', a[4], ip.mem_read(st, strides + 8 * k, 8, 'i64', ins) * size)):
        got = ip.mem_read(st, p + 8 * k, 8, 'i64', ins)
        ip.rep.check(isinstance(got, Poly) and st.facts.proves(eq(got, want)), LAB_SHAPE, '%s %r is given as %r' % (what, want, got), loc)
    return n_plain(ip, fn, st, ins, a)


def n_plain(ip, fn, st, ins, a):
    if ins['ty'] != 'void':
        st.env[ins['id']] = ip.result(st, ins)


def n_descr(ip, fn, st, ins, a):
    p = Poly.of(fresh('^descr', 'base'))
    st.info[('descr', ip.base_of(p)[0])] = a[0]
    st.env[ins['id']] = p


def n_pair(ip, fn, st, ins, a):
    x = repr(a[0])
    st.env[ins['id']] = ('agg', {0: Poly.of(atom('sym', 'code of %s' % x)), 1: Poly.of(atom('sym', 'bytes of %s' % x))})
    st.facts.add(ge(Poly.of(atom('sym', 'bytes of %s' % x)), 0))


def arrays(ctx, keep):
    from engine import lifecycle
    text = '#include <algorithm>\n#include <array>\n#include "%s/src/python/numpyHelpers.cpp"\n' % build.REPO
    name = [None]

    def prepare(js):
        for f in js['functions']:
            if re.search('createNumpyArrayImpl', f['name']):
                f['name'] = 'vf_createNumpyArrayImpl'
        return js
    ctx.drive('numpyShape', handlers=[(r'^PyArray_NewFromDescr$', n_make), (r'^PyArray_DescrFromType$', n_descr), (r'^LvArray::python::internal::getNumPyType\(', n_pair), (r'^_?Py|^_import', n_plain)] + lifecycle.HANDLERS, defs=('NDEBUG',),
              lvir_args=('--opaque', OPAQUE, '--roots', 'createNumpyArrayImpl'), extra=('-Dalways_inline=unused', '-I' + PYINC), text=text, setup=n_setup, keep=keep, prepare=prepare)


LAB_CODE = 'each C++ type is handed to NumPy as the type of the same kind and width'
CODES = {'a': (1, 1), 'h': (2, 1), 'c': (1, 1), 's': (3, 2), 't': (4, 2), 'i': (5, 4), 'j': (6, 4), 'l': (7, 8), 'm': (8, 8), 'x': (9, 8), 'y': (10, 8),
         'f': (11, 4), 'd': (12, 8), 'e': (13, 16), 'P7_object': (17, 8)}
# codes NumPy gives to the same representation on this platform
SAME = {7: (7, 9), 9: (7, 9), 8: (8, 10), 10: (8, 10)}


def t_name(ip, p):
    b, off = ip.base_of(p) if isinstance(p, Poly) else (None, None)
    m = re.match('@_ZTI(.*)$', Atom.byid[b].name) if b is not None and not off.t else None
    return m.group(1) if m else None


def t_same(ip, fn, st, ins, a):
    ps = [p if 'type_info' in ins['dn'] else ip.mem_read(st, p, 8, 'ptr', ins) for p in a]
    ns = [t_name(ip, p) for p in ps]
    neg = 'operator!=' in ins['dn']
    if None not in ns:
        st.env[ins['id']] = TRUE if (ns[0] == ns[1]) != neg else FALSE
        return
    name = ns[0] or ns[1]
    if name is None:
        raise Unsupported('comparison of types')
    if 'type' in st.info:
        st.env[ins['id']] = TRUE if (st.info['type'] == name) != neg else FALSE
        return
    other = st.copy()
    st.info['type'] = name
    other.info['not'] = other.info.get('not', ()) + (name,)
    return 'states', [(st, FALSE if neg else TRUE), (other, TRUE if neg else FALSE)]


def t_end(ip, f, outs, rep):
    fn = ip.m.fns[f]
    for kind, st, v in outs:
        if kind != 'ret':
            continue
        loc, tr = fn.dn.split('(')[0], lifetrail(st)
        if f == 'vf_getNumPyType':
            if 'type' not in st.info:
                missing = sorted(set(CODES) - set(st.info.get('not', ())))
                rep.check(not missing, LAB_CODE, 'types not recognised: %s' % ' '.join(missing), loc, tr)
                continue
            if not (isinstance(v, tuple) and v[0] == 'agg'):
                raise Unsupported('result')
            c, n = v[1][0], v[1][1]
            if st.info['type'] not in CODES:
                continue
            code, size = CODES[st.info['type']]
            rep.check(c.isconst() and int(c.cval()) % 2 ** 32 in SAME.get(code, (code,)), LAB_CODE, 'type %s has NumPy code %r' % (st.info['type'], c), loc, tr)
            rep.check(n.isconst() and int(n.cval()) == size, LAB_CODE, 'type %s is said to have %r bytes' % (st.info['type'], n), loc, tr)
        else:
            x = st.env[fn.js['args'][-1]['id']]
            k = [c for c in range(-1, 26) if not st.facts.proves(ne(x, c))]
            name = t_name(ip, v)
            if name is None:
                raise Unsupported('type of a code')
            if len(k) == 1 or st.facts.proves(eq(x, k[-1])):
                rep.check(name in CODES and k[-1] in SAME.get(CODES[name][0], (CODES[name][0],)) or name == 'Dn', LAB_CODE, 'NumPy code %d is taken for %s' % (k[-1], name), loc, tr)
            else:
                rep.check(name not in CODES, LAB_CODE, 'several NumPy codes are taken for %s' % name, loc, tr)


def types(ctx, keep):
    text = '#include <algorithm>\n#include <array>\n#include "%s/src/python/numpyHelpers.cpp"\n' % build.REPO

    def prepare(js):
        js['functions'] = [f for f in js['functions'] if re.search('getNumPyType(E|D|S)|getTypeIndexFromNumPy', f['name'])]
        for f in js['functions']:
            f['name'] = 'vf_getNumPyType' if 'getNumPyType' in f['name'] else 'vf_getTypeIndexFromNumPy'
        return js
    ctx.drive('numpyTypes', handlers=[(r'^std::type_(index|info)::operator[!=]=\(', t_same)], defs=('NDEBUG',),
              lvir_args=('--opaque', '^std::type_(index|info)::operator[!=]=', '--roots', 'getNumPyTypeE|getTypeIndexFromNumPy'),
              extra=('-Dalways_inline=unused', '-I' + PYINC), text=text, finish=t_end, keep=keep, prepare=prepare)


REFS = (LAB_TAKEN, LAB_COPY, LAB_GONE, LAB_TEST)
