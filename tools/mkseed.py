"""mkseed.py SPECFILE: build /verif/seeded/<id> from a python file defining SEEDS; confirm each against /repo.
SEEDS: list of dict(id, property, edits=[(file, old, new)], demo='C++ source', system=bool, flags=[...], stubs=bool, needs, breaks)"""
import json, os, re, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


ATOMICS = '''
// sequential definitions for running a demonstration
namespace RAJA
{
template< typename P, typename T, typename X > T atomicInc( T * a ) noexcept { return ( *a )++; }
template< typename P, typename T, typename X > T atomicDec( T * a ) noexcept { return ( *a )--; }
template< typename P, typename T, typename X > T atomicAdd( T * a, T v ) noexcept { T o = *a; *a = o + v; return o; }
template< typename P, typename T, typename X > T atomicSub( T * a, T v ) noexcept { T o = *a; *a = o - v; return o; }
template< typename P, typename T, typename X > T atomicMax( T * a, T v ) noexcept { T o = *a; *a = o > v ? o : v; return o; }
template< typename P, typename T, typename X > T atomicMin( T * a, T v ) noexcept { T o = *a; *a = o < v ? o : v; return o; }
template< typename P, typename T, typename X > T atomicExchange( T * a, T v ) noexcept { T o = *a; *a = v; return o; }
template< typename P, typename T, typename X > T atomicCAS( T * a, T c, T v ) noexcept { T o = *a; if( o == c ) *a = v; return o; }
template< typename P, typename T > ReduceBitAnd< P, T >::ReduceBitAnd( T v ) noexcept : m_v( new T( v ) ) {}
template< typename P, typename T > ReduceBitAnd< P, T >::ReduceBitAnd( ReduceBitAnd const & o ) noexcept : m_v( o.m_v ) {}
template< typename P, typename T > ReduceBitAnd< P, T >::~ReduceBitAnd() noexcept {}
template< typename P, typename T > ReduceBitAnd< P, T > const & ReduceBitAnd< P, T >::operator&=( T v ) const noexcept { *m_v &= v; return *this; }
template< typename P, typename T > T ReduceBitAnd< P, T >::get() const noexcept { return *m_v; }
}
'''
PYDEMO = '''#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "python/python.hpp"
#include "Array.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
using namespace LvArray;
template< typename T > using B = MallocBuffer< T >;
static Array< double, 2, camp::idx_seq< 0, 1 >, long, B > a;
static SortedArray< long, long, B > s;
static ArrayOfArrays< double, long, B > aa;
static ArrayOfSets< long, long, B > as;
static CRSMatrix< double, long, long, B > m;
static Array< unsigned short, 1, camp::idx_seq< 0 >, long, B > us;
static PyObject * get( PyObject *, PyObject * args )
{
  char const * n; if( !PyArg_ParseTuple( args, "s", &n ) ) return nullptr;
  switch( n[ 0 ] ) { case 'a': return python::create( a ); case 's': return python::create( s ); case 'A': return python::create( aa ); case 'S': return python::create( as ); case 'u': return python::create( us ); default: return python::create( m ); }
}
static PyObject * call( PyObject *, PyObject * args )
{
  PyObject * f; if( !PyArg_ParseTuple( args, "O", &f ) ) return nullptr;
  python::PythonFunction< Array< double, 2, camp::idx_seq< 0, 1 >, long, B > & > fn( f );
  fn( a );
  if( PyErr_Occurred() ) return nullptr;
  Py_RETURN_NONE;
}
static PyMethodDef methods[] = { { "get", get, METH_VARARGS, "" }, { "call", call, METH_VARARGS, "" }, { nullptr, nullptr, 0, nullptr } };
static PyModuleDef def = { PyModuleDef_HEAD_INIT, "demo", "", -1, methods };
PyMODINIT_FUNC PyInit_demo( void )
{
  a.resize( 3, 4 ); for( long i = 0; i < 3; ++i ) for( long j = 0; j < 4; ++j ) a( i, j ) = 10 * i + j;
  us.resize( 3 ); us[ 0 ] = 7; us[ 1 ] = 40000; us[ 2 ] = 9;
  for( long i = 0; i < 5; ++i ) s.insert( 2 * i );
  aa.appendArray( 3 ); aa.appendArray( 2 ); as.appendSet( 4 ); as.insertIntoSet( 0, 7 ); as.insertIntoSet( 0, 3 );
  m.resize( 3, 5, 2 ); m.insertNonZero( 0, 1, 1.5 ); m.insertNonZero( 0, 3, 4.5 ); m.insertNonZero( 2, 4, 2.5 ); m.compress();
  PyObject * mod = PyModule_Create( &def );
  if( mod != nullptr && !python::addPyLvArrayModule( mod ) ) return nullptr;
  return mod;
}
'''
PYSCRIPT = '''py=/opt/veriftools/pyvenv/bin/python
np=$($py -c 'import numpy; print(numpy.get_include())')
for f in /repo/src/python/*.cpp /repo/src/system.cpp "$here/demo.cpp"; do
  g++ -std=c++14 -w -O1 -fPIC -include algorithm -include array -I"$here/inc" -I/repo/src -I/usr/include/python3.12 -I"$np" -c "$f" -o "$d/$(basename "$f").o" &
  p="$p $!"
done
for x in $p; do wait $x || exit 1; done
g++ -shared "$d"/*.o -o "$d/demo.so" -ldl || exit 1
ln -s demo.so "$d/pylvarray.so"
cp "$here/test.py" "$d/test.py"
cd "$d" && timeout 120 $py -B test.py
'''


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)


def clean():
    sh('git -C /repo checkout -- .')


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    cfg = open(R + '/src/LvArrayConfig.hpp.in').read()
    cfg = re.sub(r'#cmakedefine (\w+).*', r'/* \1 off unless given with -D */', cfg)
    cfg = re.sub(r'@LVARRAY_VERSION_\w+@', '0', cfg)
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    for s in seeds:
        if only and s['id'] not in only:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/inc')
        open(d + '/inc/LvArrayConfig.hpp', 'w').write(cfg)
        if s.get('stubs', True):
            for x in ('camp', 'RAJA', 'umpire', 'chai'):
                shutil.copytree(V + '/stubs/' + x, d + '/inc/' + x)
            with open(d + '/inc/RAJA/RAJA.hpp', 'a') as f:
                f.write(ATOMICS)
        if s.get('py'):
            s['demo'], s['script'] = PYDEMO, PYSCRIPT
            open(d + '/test.py', 'w').write(s['py'])
        open(d + '/demo.cpp', 'w').write(s['demo'])
        cmd = 'g++ -std=c++14 -w %s -I"$here/inc" -I/repo/src "$here/demo.cpp" %s -o "$d/demo" -ldl' % (' '.join(s.get('flags', [])), '/repo/src/system.cpp' if s.get('system', True) else '')
        body = '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nd=$(mktemp -d)\ntrap \'rm -r "$d"\' EXIT\n'
        if s.get('script'):
            body += s['script']
        else:
            body += cmd + ' || exit 1\ntimeout 120 "$d/demo"\n'
        open(d + '/demo.sh', 'w').write(body)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        try:
            r = sh(['bash', d + '/demo.sh'], cwd=R)
            if r.returncode:
                print(s['id'], 'demo FAILS on the unchanged tree', r.stdout[-500:], r.stderr[-1500:])
                continue
            for f, a, b in s['edits']:
                t = open(R + '/' + f).read()
                n = s.get('nth', {}).get(f)
                if n is None:
                    assert t.count(a) == 1, (s['id'], f, t.count(a))
                    t = t.replace(a, b)
                else:
                    ps = t.split(a)
                    t = a.join(ps[:n + 1]) + b + a.join(ps[n + 1:])
                open(R + '/' + f, 'w').write(t)
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            b = sh('bash /opt/vp/build.sh')
            if b.returncode:
                print(s['id'], 'does not build', b.stderr[-800:])
                continue
            sh('bash /opt/vp/test.sh /tmp/w/seedtest.json')
            base = set(json.load(open('/opt/vp/BASELINE.json')).get('tests', []) if False else [])
            r = sh(['bash', d + '/demo.sh'], cwd=R)
            t = open('/tmp/w/seedtest.json').read()
            failed = 'fail' in t.lower() and re.search(r'"failed":\s*\[\s*"', t) is not None
            print(s['id'], 'demo exit', r.returncode, '| tests', 'FAIL' if failed else 'ok', '' if r.returncode else 'DEMO DOES NOT NOTICE')
            e = dict(os.environ, VF_NOEV='1')
            c = subprocess.run([V + '/bin/check', s['property']], env=e, capture_output=True, text=True) if os.path.exists(V + '/checks/%s.py' % s['property']) else None
            if c:
                print('   check', s['property'], 'rc', c.returncode, [l for l in c.stdout.split('\n') if 'violated' in l or 'could not' in l][:2])
        finally:
            clean()
    sh('bash /opt/vp/build.sh')


main()
