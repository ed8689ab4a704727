UMP = r'''
#include <cstring>
namespace LvArray { namespace umpireInterface {
void copy( void * d, void * s, std::size_t n ) { std::memcpy( d, s, n ); }
camp::resources::Event copy( void * d, void * s, camp::resources::Resource &, std::size_t n ) { std::memcpy( d, s, n ); return {}; }
void memset( void * a, int v, std::size_t n ) { std::memset( a, v, n ); }
camp::resources::Event memset( void * a, int v, camp::resources::Resource &, std::size_t n ) { std::memset( a, v, n ); return {}; }
} }
namespace camp { namespace resources { Event::Event() noexcept {} Event::Event( Event const & ) noexcept {} Event::~Event() noexcept {} } }
'''
SAN = ['-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
SEEDS = [
dict(id='c22-negative-access-level-writable', property='C22', edits=[('src/python/PyArrayOfArrays.hpp', 'getAccessLevel() >= static_cast< int >( LvArray::python::PyModify::MODIFIABLE )', 'getAccessLevel() != static_cast< int >( LvArray::python::PyModify::READ_ONLY )')], demo='', py=r'''import demo
A = demo.get( 'A' )
assert not A[ 0 ].flags.writeable
A.set_access_level( 1 )
assert A[ 0 ].flags.writeable
try:
    A.set_access_level( -1 )
except ValueError:
    pass
assert A.get_access_level() >= 1 or not A[ 0 ].flags.writeable
''', needs='an access level below READ_ONLY', breaks='the values of a sub-array are handed out writable though the level does not permit modification'),
dict(id='c23-erase-one-past-the-end', property='C23', edits=[('src/python/PyArrayOfArrays.cpp', '      || begin >= self->arrayOfArrays->sizeOfArray( index ) )', '      || begin > self->arrayOfArrays->sizeOfArray( index ) )')], demo='', py=r'''import demo
A = demo.get( 'A' )
A.set_access_level( 2 )
n = [ len( A[ i ] ) for i in range( 2 ) ]
for i in range( 2 ):
    try:
        A.erase_from( i, n[ i ] )
        assert False
    except IndexError:
        pass
assert [ len( A[ i ] ) for i in range( 2 ) ] == n
''', needs='erasing at exactly the size of a sub-array', breaks='the bound of erase_from admits one position past the last value'),
dict(id='c24-call-result-leaked', property='C24', edits=[('src/python/PyFunc.cpp', 'Py_XDECREF( PyObject_CallObject( func, tup.get() ) );', 'PyObject * const result = PyObject_CallObject( func, tup.get() );\n  if( result == Py_None )\n    Py_DECREF( result );')], demo='', py=r'''import demo, sys
x = object()
n = sys.getrefcount( x )
for i in range( 5 ):
    demo.call( lambda a: x )
assert sys.getrefcount( x ) == n
''', needs='a callback that returns something other than None', breaks='the result of the callback is never released'),
dict(id='c02-first-slab-not-initialised', property='C02', edits=[('src/Array.hpp', 'for( INDEX_TYPE i = numIterations - 1; i >= 0; --i )', 'for( INDEX_TYPE i = numIterations - 1; i > 0; --i )')], demo=r'''#include "Array.hpp"
#include "MallocBuffer.hpp"
''' + UMP + r'''
int main()
{
  LvArray::Array< int, 2, camp::idx_seq< 0, 1 >, long, LvArray::MallocBuffer > a( 3, 2 );
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 2; ++j ) a( i, j ) = 10 * i + j;
  a.setSingleParameterResizeIndex( 1 );
  a.reserve( 100 );
  for( int i = 6; i < 100; ++i ) a.data()[ i ] = -5;
  a.resizeDefault( 4, 77 );
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 4; ++j ) if( a( i, j ) != ( j < 2 ? 10 * i + j : 77 ) ) return 1;
  return 0;
}
''', needs='growing a dimension other than the slowest', breaks='the new values of the first slab are never constructed'),
dict(id='c06-remove-run-with-last', property='C06', edits=[('src/sortedArrayManipulation.hpp', '      if( nextRemovalPosition == size )\n      {\n        nextValueToRemove = last;', '      if( nextRemovalPosition >= size - 1 )\n      {\n        nextValueToRemove = last;')], demo=r'''#include "sortedArrayManipulation.hpp"
using namespace LvArray::sortedArrayManipulation;
int main()
{
  int v[] = { 1, 3, 5, 7, 9 }, r[] = { 3, 9 }, q[] = { 3, 7 };
  if( remove( v, 5, q, q + 2 ) != 2 || v[ 0 ] != 1 || v[ 1 ] != 5 || v[ 2 ] != 9 ) return 1;
  int w[] = { 1, 3, 5, 7, 9 };
  return remove( w, 5, r, r + 2 ) == 2 && w[ 0 ] == 1 && w[ 1 ] == 5 && w[ 2 ] == 7 ? 0 : 1;
}
''', needs='removing several values of which the last is the last one stored', breaks='the last stored value survives its removal'),
dict(id='c07-last-offset-not-moved', property='C07', edits=[('src/ArrayOfArraysView.hpp', '    for( INDEX_TYPE array = i + 1; array < m_numArrays + 1; ++array )\n    {\n      m_offsets[array] += capacityIncrease;', '    for( INDEX_TYPE array = i + 1; array < m_numArrays; ++array )\n    {\n      m_offsets[array] += capacityIncrease;')], demo=r'''#include "ArrayOfArrays.hpp"
#include "MallocBuffer.hpp"
''' + UMP + r'''
int main()
{
  LvArray::ArrayOfArrays< int, long, LvArray::MallocBuffer > a( 3, 2 );
  for( int i = 0; i < 3; ++i ) { a.emplaceBack( i, i ); a.emplaceBack( i, 10 * i ); }
  a.setCapacityOfArray( 1, 5 );
  if( a.capacityOfArray( 0 ) != 2 || a.capacityOfArray( 1 ) != 5 || a.capacityOfArray( 2 ) != 2 ) return 1;
  for( int i = 0; i < 3; ++i ) if( a.sizeOfArray( i ) != 2 || a( i, 0 ) != i || a( i, 1 ) != 10 * i ) return 1;
  return 0;
}
''', needs='changing the capacity of any array', breaks='the end of the last array is not moved, so its capacity no longer matches its storage'),
dict(id='c08-search-past-the-row', property='C08', edits=[('src/CRSMatrixView.hpp', 'sortedArrayManipulation::find( columns + curPos, nnz - curPos, cols[ i ] ) + curPos', 'sortedArrayManipulation::find( columns + curPos, nnz, cols[ i ] ) + curPos')], demo=r'''#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
''' + UMP + r'''
int main()
{
  LvArray::CRSMatrix< double, long, long, LvArray::MallocBuffer > m( 2, 200, 100 );
  for( long j = 0; j < 100; ++j ) m.insertNonZero( 0, j, 1.0 );
  for( long j = 0; j < 100; ++j ) m.insertNonZero( 1, j, 1.0 );
  long const cols[] = { 50, 99 }; double const vals[] = { 2, 3 };
  m.addToRowBinarySearch< RAJA::seq_atomic >( 0, cols, vals, 2 );
  for( long j = 0; j < 100; ++j ) { if( m.getEntries( 0 )[ j ] != 1 + ( j == 50 ? 2 : j == 99 ? 3 : 0 ) || m.getEntries( 1 )[ j ] != 1 ) return 1; }
  return 0;
}
''', needs='a row followed by storage whose columns are smaller, adding to two of its columns', breaks='the search continues past the end of the row and adds to an entry of another row'),
dict(id='c11-touch-only-when-growing', property='C11', edits=[('src/bufferManipulation.hpp', '''  if( newSize > 0 )
  {
    buf.registerTouch( MemorySpace::host );''', '''  if( newSize > size )
  {
    buf.registerTouch( MemorySpace::host );''')], demo=r'''#include "Array.hpp"
#include "MallocBuffer.hpp"
''' + UMP + r'''
static int touches = 0;
template< typename T > struct Rec : LvArray::MallocBuffer< T >
{
  using P = LvArray::MallocBuffer< T >;
  using P::P;
  void registerTouch( LvArray::MemorySpace ) const { ++touches; }
};
int main()
{
  LvArray::Array< int, 2, camp::idx_seq< 0, 1 >, long, Rec > a;
  Rec< int > b( true );
  LvArray::bufferManipulation::resize( b, 0, 4, 1 );
  if( touches != 1 ) return 1;
  LvArray::bufferManipulation::resize( b, 4, 2, 1 );
  bool const ok = touches == 2;
  LvArray::bufferManipulation::free( b, 2 );
  return ok ? 0 : 1;
}
''', needs='a shrinking resize while another space holds a copy', breaks='the destruction of values on the host is not reported to the buffer'),
dict(id='c12-claim-read-before-increment', property='C12', edits=[('src/ArrayOfArraysView.hpp', '    INDEX_TYPE const previousSize = RAJA::atomicInc< POLICY >( &m_sizes[ i ] );\n', '    INDEX_TYPE const previousSize = m_sizes[ i ];\n    RAJA::atomicInc< POLICY >( &m_sizes[ i ] );\n')], demo=r'''#include "ArrayOfArrays.hpp"
#include "MallocBuffer.hpp"
''' + UMP + r'''
// the policy stands for a schedule: another thread appends just before this thread's increment takes effect
struct Interleaved {};
static LvArray::ArrayOfArrays< int, long, LvArray::MallocBuffer > a( 1, 8 );
static bool armed = false;
namespace RAJA
{
template<> long atomicInc< Interleaved, long, void >( long * p ) noexcept
{
  if( armed ) { armed = false; a.toView().emplaceBackAtomic< Interleaved >( 0, 7 ); }
  return ( *p )++;
}
}
int main()
{
  armed = true;
  a.toView().emplaceBackAtomic< Interleaved >( 0, 5 );
  if( a.sizeOfArray( 0 ) != 2 ) return 1;
  return a( 0, 0 ) == 7 && a( 0, 1 ) == 5 ? 0 : 1;
}
''', needs='two threads appending to the same array at the same time', breaks='two threads may construct their values in the same place'),
dict(id='c20-async-copy-source-indices', property='C20', edits=[('src/memcpy.hpp', 'srcIndices.data() );', 'reinterpret_cast< SRC_INDEX_TYPE const * >( dstIndices.data() ) );')], nth={'src/memcpy.hpp': 1}, demo=r'''#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "memcpy.hpp"
#include <array>
''' + UMP + r'''
int main()
{
  LvArray::Array< int, 2, camp::idx_seq< 0, 1 >, long, LvArray::MallocBuffer > a( 3, 2 ), b( 3, 2 );
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 2; ++j ) { a( i, j ) = 0; b( i, j ) = 10 * i + j + 1; }
  camp::resources::Resource & r = *reinterpret_cast< camp::resources::Resource * >( &a );
  std::array< long, 1 > const at{ { 0 } }, from{ { 2 } };
  LvArray::memcpy< 1, 1 >( r, a.toView(), at, b.toViewConst(), from );
  return a( 0, 0 ) == 21 && a( 0, 1 ) == 22 && a( 1, 0 ) == 0 ? 0 : 1;
}
''', needs='the overload that takes a resource, with differing source and destination indices', breaks='the source of the copy is selected by the indices of the destination'),
dict(id='c10-view-columns-from-rows', property='C10', edits=[('src/CRSMatrixView.hpp', '''    return SparsityPatternView< COL_TYPE const, INDEX_TYPE const, BUFFER_TYPE >( numRows(),
                                                                                 numColumns(),''', '''    return SparsityPatternView< COL_TYPE const, INDEX_TYPE const, BUFFER_TYPE >( numRows(),
                                                                                 numRows(),''')], demo=r'''#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
''' + UMP + r'''
int main()
{
  LvArray::CRSMatrix< double, long, long, LvArray::MallocBuffer > m( 2, 7, 3 );
  auto const v = m.toView();
  auto const p = v.toSparsityPatternView();
  return p.numRows() == 2 && p.numColumns() == 7 ? 0 : 1;
}
''', needs='a matrix that is not square', breaks='the pattern view of a matrix reports the wrong number of columns'),
dict(id='c04-element-bound-is-the-capacity', property='C04', edits=[('src/ArrayOfArraysView.hpp', '''!arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \\''', '''!arrayManipulation::isPositive( j ) || j >= this->capacityOfArray( i ), \\''')], flags=['-DLVARRAY_BOUNDS_CHECK'], demo=r'''#include "ArrayOfArrays.hpp"
#include "MallocBuffer.hpp"
#include <unistd.h>
''' + UMP + r'''
static void stop() { _exit( 0 ); }
int main()
{
  LvArray::system::setErrorHandler( stop );
  LvArray::ArrayOfArrays< int, long, LvArray::MallocBuffer > a( 2, 8 );
  a.emplaceBack( 0, 1 ); a.emplaceBack( 0, 2 );
  if( a( 0, 1 ) != 2 ) return 1;
  a( 0, 2 ) = 3;
  return 1;
}
''', needs='an access beyond the values of an array that has spare capacity', breaks='an element that does not exist is accessed with bounds checks on'),
dict(id='c05-assignment-keeps-resize-dimension', property='C05', edits=[('src/Array.hpp', '''    setSingleParameterResizeIndex( rhs.getSingleParameterResizeIndex() );
    return *this;
  }

  /**
   * @brief Move assignment operator''', '''    return *this;
  }

  /**
   * @brief Move assignment operator''')], demo=r'''#include "Array.hpp"
#include "MallocBuffer.hpp"
''' + UMP + r'''
int main()
{
  LvArray::Array< int, 2, camp::idx_seq< 0, 1 >, long, LvArray::MallocBuffer > a( 3, 2 ), b;
  a.setSingleParameterResizeIndex( 1 );
  b = a;
  a.resize( 5 ); b.resize( 5 );
  return b.size( 0 ) == a.size( 0 ) && b.size( 1 ) == a.size( 1 ) ? 0 : 1;
}
''', needs='assigning an array whose single-parameter resize dimension is not the default', breaks='the copy resizes a different dimension than the original'),
dict(id='c21-ragged-lower-dimension', property='C21', edits=[('src/input.hpp', '      currentDims[dimLevel] = 1;\n', '      if( dimLevel == NDIM - 1 )\n        currentDims[dimLevel] = 1;\n')], demo=r'''#include "Array.hpp"
#include "MallocBuffer.hpp"
#include <algorithm>
#include <sstream>
#include "input.hpp"
#include <unistd.h>
''' + UMP + r'''
static void stop() { _exit( 1 ); }
int main()
{
  LvArray::system::setErrorHandler( stop );
  LvArray::Array< int, 3, camp::idx_seq< 0, 1, 2 >, int, LvArray::MallocBuffer > a;
  LvArray::input::stringToArray( a, "{ { { 1, 2 }, { 3, 4 } }, { { 5, 6 }, { 7, 8 } } }" );
  if( a.size( 0 ) != 2 || a.size( 1 ) != 2 || a.size( 2 ) != 2 ) return 1;
  int n = 0;
  for( int i = 0; i < 2; ++i ) for( int j = 0; j < 2; ++j ) for( int k = 0; k < 2; ++k ) if( a( i, j, k ) != ++n ) return 1;
  return 0;
}
''', needs='an array of three dimensions', breaks='consistent input of rank three is rejected'),
]
