// the classes that stand between Python objects and containers
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <algorithm>
#include <array>
#include "probe.hpp"
#include "python/PyArray.hpp"
#include "python/PySortedArray.hpp"
#include "python/PyArrayOfArrays.hpp"
#include "python/PyArrayOfSets.hpp"
#include "python/PyCRSMatrix.hpp"
#include "python/PyFunc.hpp"
using namespace LvArray;
using namespace LvArray::python;
#define RES( f ) extern "C" void vf_##f
extern "C" { PyObject * vf_new() noexcept; void vf_ask( char const *, ... ) noexcept; void vf_ask2( char const *, void *, long, long ) noexcept; void vf_asked( long ) noexcept; void vf_asked0() noexcept; }
template< typename T > using M = ProbeBuffer< T >;
template< typename T, int N, typename P > using A = Array< T, N, P, long, M >;

struct Seen { void * data; void const * type; bool readOnly; long long dims[ 3 ]; long long strides[ 3 ]; };
static Seen vf_seen[ 3 ];
static int vf_count, vf_ndim[ 3 ];
namespace LvArray { namespace python { namespace internal {
PyObject * createNumpyArrayImpl( void * const data, std::type_index const type, bool const dataIsConst, int const ndim, long long const * const dims, long long const * const strides )
{
  vf_ndim[ vf_count ] = ndim;
  Seen & s = vf_seen[ vf_count++ ];
  s.data = data; s.type = *reinterpret_cast< void const * const * >( &type ); s.readOnly = dataIsConst;
  for( int i = 0; i < ndim; ++i ) { s.dims[ i ] = dims[ i ]; s.strides[ i ] = strides[ i ]; }
  return vf_new();
}
} } }
#define RIGHT "an array is writable exactly when modification was granted"
#define NEVER "offsets, sorted values, columns and the values of sets are never writable"
#define WHAT "an array handed out describes exactly the values of the container"
#define FIRST "only reading is allowed until more is granted"
#define LEVEL "the level asked for is the level in force"
#define SEEN( k, ptr, t, n ) vf_prove( vf_seen[ k ].data == ( ptr ), WHAT ); vf_prove( vf_seen[ k ].type == &typeid( t ), WHAT ); vf_prove( vf_ndim[ k ] == n, WHAT )
#define EXTENT( k, d, size, stride ) vf_prove( vf_seen[ k ].dims[ d ] == ( size ), WHAT ); vf_prove( vf_seen[ k ].strides[ d ] == ( stride ), WHAT )
#define ONE( n ) vf_prove( vf_count == n, WHAT )
#define MAYWRITE( k ) if( level >= 1 ) { vf_prove( !vf_seen[ k ].readOnly, RIGHT ); } else { vf_prove( vf_seen[ k ].readOnly, RIGHT ); }
#define NOWRITE( k ) vf_prove( vf_seen[ k ].readOnly, NEVER )
#define C ,

// levels
#define LEVELS( name, W, T, set, fresh ) \
RES( name##_first )( T & c ) { W w( c ); vf_prove( w.getAccessLevel() < 1, FIRST ); } \
RES( name##_set )( T & c, int level ) { W w( c ); set; vf_prove( w.getAccessLevel() == level, LEVEL ); } \
RES( name##_reset )( T & c, int before, int level ) { W w( c ); { int const level = before; set; } set; vf_prove( w.getAccessLevel() == level, LEVEL ); }
using A1 = A< double, 1, camp::idx_seq< 0 > >; using W1 = python::internal::PyArrayWrapper< double, 1, camp::idx_seq< 0 >, long, M >;
using SA = SortedArray< int, long, M >; using WS = python::internal::PySortedArrayWrapper< int, long, M >;
using AA = ArrayOfArrays< double, long, M >; using WA = python::internal::PyArrayOfArraysWrapper< double, long, M >;
using AS = ArrayOfSets< int, long, M >; using WT = python::internal::PyArrayOfSetsWrapper< int, long, M >;
using CM = CRSMatrix< double, int, long, M >; using WM = python::internal::PyCRSMatrixWrapper< double, int, long, M >;
LEVELS( array, W1, A1, w.setAccessLevel( level C 0 ), )
LEVELS( sorted, WS, SA, w.setAccessLevel( level C 0 ), )
LEVELS( arrays, WA, AA, w.setAccessLevel( level ), )
LEVELS( sets, WT, AS, w.setAccessLevel( level ), )
LEVELS( matrix, WM, CM, w.setAccessLevel( level C 0 ), )

// arrays handed out
#define ARRAY( name, T, N, P, EXT ) \
RES( name )( A< T, N, camp::idx_seq< P > > & a, int level ) { vf_count = 0; python::internal::PyArrayWrapper< T, N, camp::idx_seq< P >, long, M > w( a ); w.setAccessLevel( level, 0 ); w.toNumPy(); \
  ONE( 1 ); SEEN( 0, a.data(), T, N ); EXT; MAYWRITE( 0 ); }
#define DIM( d ) EXTENT( 0, d, a.size( d ), a.strides()[ d ] )
ARRAY( array1, double, 1, 0, DIM( 0 ) )
ARRAY( array1int, int, 1, 0, DIM( 0 ) )
ARRAY( array2, double, 2, 0 C 1, DIM( 0 ); DIM( 1 ) )
ARRAY( array2t, int, 2, 1 C 0, DIM( 0 ); DIM( 1 ) )
ARRAY( array3, double, 3, 0 C 1 C 2, DIM( 0 ); DIM( 1 ); DIM( 2 ) )
ARRAY( array3p, double, 3, 2 C 0 C 1, DIM( 0 ); DIM( 1 ); DIM( 2 ) )
RES( arrayUnset )( A1 & a ) { vf_count = 0; W1 w( a ); int const level = 0; w.toNumPy(); ONE( 1 ); MAYWRITE( 0 ); }
RES( sorted )( SA & a, int level ) { vf_count = 0; WS w( a ); w.setAccessLevel( level, 0 ); w.toNumPy(); ONE( 1 ); SEEN( 0, a.data(), int const, 1 ); EXTENT( 0, 0, a.size(), 1 ); NOWRITE( 0 ); }
RES( arrays )( AA & a, long long i, int level ) { vf_count = 0; WA w( a ); w.setAccessLevel( level ); vf_assume( i >= 0 ); vf_assume( i < a.size() ); w[ i ]; auto const v = a.toViewConst(); \
  ONE( 1 ); SEEN( 0, v.getValues() + v.getOffsets()[ i ], double, 1 ); EXTENT( 0, 0, v.getSizes()[ i ], 1 ); MAYWRITE( 0 ); }
RES( sets )( AS & a, long long i, int level ) { vf_count = 0; WT w( a ); w.setAccessLevel( level ); vf_assume( i >= 0 ); vf_assume( i < a.size() ); w[ i ]; auto const v = a.toViewConst(); \
  ONE( 1 ); SEEN( 0, v.getValues() + v.getOffsets()[ i ], int, 1 ); EXTENT( 0, 0, v.getSizes()[ i ], 1 ); NOWRITE( 0 ); }
#define ROW vf_count = 0; WM w( a ); w.setAccessLevel( level, 0 ); vf_assume( i >= 0 ); vf_assume( i < a.numRows() ); auto const v = a.toViewConst();
RES( matrixColumns )( CM & a, long long i, int level ) { ROW w.getColumns( i ); ONE( 1 ); SEEN( 0, v.getColumns() + v.getOffsets()[ i ], int, 1 ); EXTENT( 0, 0, v.getSizes()[ i ], 1 ); NOWRITE( 0 ); }
RES( matrixEntries )( CM & a, long long i, int level ) { ROW w.getEntries( i ); ONE( 1 ); SEEN( 0, v.getEntries() + v.getOffsets()[ i ], double, 1 ); EXTENT( 0, 0, v.getSizes()[ i ], 1 ); MAYWRITE( 0 ); }
RES( matrixAll )( CM & a, int level ) { vf_count = 0; WM w( a ); w.setAccessLevel( level, 0 ); vf_assume( a.numRows() >= 1 ); auto const v = a.toViewConst(); vf_assume( v.getOffsets()[ 0 ] == 0 ); w.getEntriesColumnsAndOffsets(); ONE( 3 ); long const n = a.numRows();
  SEEN( 0, v.getEntries(), double, 1 ); EXTENT( 0, 0, v.getOffsets()[ n ], 1 ); MAYWRITE( 0 ); SEEN( 1, v.getColumns(), int, 1 ); EXTENT( 1, 0, v.getOffsets()[ n ], 1 ); NOWRITE( 1 ); SEEN( 2, v.getOffsets(), long, 1 ); EXTENT( 2, 0, n + 1, 1 ); NOWRITE( 2 ); }
RES( scalar )( double & x ) { vf_count = 0; create( x ); ONE( 1 ); SEEN( 0, &x, double, 1 ); EXTENT( 0, 0, 1, 1 ); vf_prove( !vf_seen[ 0 ].readOnly, RIGHT ); }
RES( scalarConst )( double const & x ) { vf_count = 0; create( x ); ONE( 1 ); SEEN( 0, &x, double, 1 ); EXTENT( 0, 0, 1, 1 ); vf_prove( vf_seen[ 0 ].readOnly, RIGHT ); }
#define ASKS "the information given is that of the container"
RES( arraysInfo )( AA & a, long long i ) { WA w( a ); vf_assume( a.size() >= 0 ); vf_prove( w.size() == a.size(), ASKS ); vf_assume( i >= 0 ); vf_assume( i < a.size() ); vf_prove( w.sizeOfArray( i ) == a.sizeOfArray( i ), ASKS ); }
RES( setsInfo )( AS & a ) { WT w( a ); vf_prove( w.size() == a.size(), ASKS ); }
RES( matrixInfo )( CM & a ) { WM w( a ); vf_prove( w.numRows() == a.numRows(), ASKS ); vf_prove( w.numColumns() == a.numColumns(), ASKS ); }
RES( arrayInfo )( A< double, 3, camp::idx_seq< 2, 0, 1 > > & a ) { python::internal::PyArrayWrapper< double, 3, camp::idx_seq< 2, 0, 1 >, long, M > w( a ); vf_prove( w.ndim() == 3, ASKS ); vf_prove( w.getSingleParameterResizeIndex() == a.getSingleParameterResizeIndex(), ASKS ); }
RES( arrayDim )( A< double, 3, camp::idx_seq< 2, 0, 1 > > & a, int d ) { python::internal::PyArrayWrapper< double, 3, camp::idx_seq< 2, 0, 1 >, long, M > w( a ); vf_assume( d >= 0 ); vf_assume( d < 3 ); w.setSingleParameterResizeIndex( d ); vf_prove( a.getSingleParameterResizeIndex() == d, ASKS ); }
#define TYPE( w, f, T ) { std::type_index const t = w.f(); vf_prove( *reinterpret_cast< void const * const * >( &t ) == &typeid( T ), ASKS ); }
RES( types )( A1 & a, SA & b, AA & c, AS & d, CM & e ) { W1 w1( a ); WS w2( b ); WA w3( c ); WT w4( d ); WM w5( e ); TYPE( w1, valueType, double ); TYPE( w2, valueType, int ); TYPE( w3, valueType, double ); TYPE( w4, valueType, int ); TYPE( w5, columnType, int ); TYPE( w5, entryType, double ); }

// changes: exactly one call of the operation of the same meaning, with what Python gave, whose result is handed back
RES( arrayResize )( A1 & a, long long n ) { W1 w( a ); vf_ask( "resize", &a, n ); w.resize( n ); vf_asked0(); }
RES( arrayResizeAll )( A< double, 2, camp::idx_seq< 0, 1 > > & a, long long n, long long m ) { python::internal::PyArrayWrapper< double, 2, camp::idx_seq< 0, 1 >, long, M > w( a ); long long const d[ 2 ] = { n, m }; vf_ask2( "resize", &a, n, m ); w.resize( d ); vf_asked0(); }
RES( sortedInsert )( SA & a, int const * v, long long n ) { WS w( a ); vf_assume( n >= 0 ); vf_ask( "insert", &a, v, v + n ); vf_asked( w.insert( v, n ) ); }
RES( sortedRemove )( SA & a, int const * v, long long n ) { WS w( a ); vf_assume( n >= 0 ); vf_ask( "remove", &a, v, v + n ); vf_asked( w.remove( v, n ) ); }
RES( arraysErase )( AA & a, long long i ) { WA w( a ); vf_ask( "eraseArray", &a, i ); w.eraseArray( i ); vf_asked0(); }
RES( arraysEraseFrom )( AA & a, long long i, long long j ) { WA w( a ); vf_ask( "eraseFromArray", &a, i, j, 1L ); w.eraseFromArray( i, j ); vf_asked0(); }
RES( arraysInsert )( AA & a, long long i, double const * v, long long n ) { WA w( a ); vf_assume( n >= 0 ); vf_ask( "insertArray", &a, i, v, v + n ); w.insertArray( i, v, n ); vf_asked0(); }
RES( arraysInsertInto )( AA & a, long long i, long long j, double const * v, long long n ) { WA w( a ); vf_assume( n >= 0 ); vf_ask( "insertIntoArray", &a, i, j, v, v + n ); w.insertIntoArray( i, j, v, n ); vf_asked0(); }
RES( setsErase )( AS & a, long long i ) { WT w( a ); vf_ask( "eraseSet", &a, i ); w.eraseSet( i ); vf_asked0(); }
RES( setsInsert )( AS & a, long long i, long long n ) { WT w( a ); vf_ask( "insertSet", &a, i, n ); w.insertSet( i, n ); vf_asked0(); }
RES( setsInsertInto )( AS & a, long long i, int const * v, long long n ) { WT w( a ); vf_assume( n >= 0 ); vf_ask( "insertIntoSet", &a, i, v, v + n ); vf_asked( w.insertIntoSet( i, v, n ) ); }
RES( setsRemoveFrom )( AS & a, long long i, int const * v, long long n ) { WT w( a ); vf_assume( n >= 0 ); vf_ask( "removeFromSet", &a, i, v, v + n ); vf_asked( w.removeFromSet( i, v, n ) ); }
RES( matrixResize )( CM & a, long long n, long long m, long long c ) { WM w( a ); vf_ask( "resize", &a, n, m, c ); w.resize( n, m, c ); vf_asked0(); }
RES( matrixCompress )( CM & a ) { WM w( a ); vf_ask( "compress", &a ); w.compress(); vf_asked0(); }
RES( matrixInsert )( CM & a, long long i, int const * c, double const * e, long long n ) { WM w( a ); vf_assume( n >= 0 ); vf_ask( "insertNonZeros", &a, i, c, e, n ); vf_asked( w.insertNonZeros( i, c, e, n ) ); }
RES( matrixRemove )( CM & a, long long i, int const * c, long long n ) { WM w( a ); vf_assume( n >= 0 ); vf_ask( "removeNonZeros", &a, i, c, n ); vf_asked( w.removeNonZeros( i, c, n ) ); }
RES( matrixAdd )( CM & a, long long i, int const * c, double const * e, long long n ) { WM w( a ); vf_assume( n >= 0 ); vf_ask( "addToRow", &a, i, c, e, n ); w.addToRow( i, c, e, n ); vf_asked0(); }

// owned references
using R = PyObjectRef<>;
RES( refCopyAssign )( R & a, R & b ) { a = static_cast< R const & >( b ); }
RES( refCopySelf )( R & a ) { a = static_cast< R const & >( a ); }
RES( refMoveAssign )( R & a, R & b ) { a = std::move( b ); }
RES( refMoveSelf )( R & a ) { a = std::move( a ); }
RES( refAssign )( R & a, PyObject * p ) { a = p; }
RES( refCopy )( R & a ) { R b( static_cast< R const & >( a ) ); }
RES( refMove )( R & a ) { R b( std::move( a ) ); }
RES( refTake )( PyObject * p ) { R b( p ); }
RES( refRelease )( R & a ) { a.release(); }
RES( refDrop )( R & a ) { a.~R(); }
RES( refNone )() { R b; }
RES( refKeep )( R & a, R & b ) { R c( static_cast< R const & >( a ) ); b = std::move( c ); }
RES( function )( PythonFunction< double &, int & > & f, double & x, int & n ) { f( x, n ); }
RES( functionMake )( PyObject * p ) { PythonFunction< int & > f( p ); }
