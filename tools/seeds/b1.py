SEEDS = [
dict(id='c16-one-frame-too-many', property='C16', edits=[('src/system.cpp', 'state->current == state->end )', 'state->current > state->end )')],
 demo=r'''#include "system.hpp"
#include <cstdio>
static std::string text;
__attribute__((noinline)) static int deep( int n ) { if( n == 0 ) { text = LvArray::system::stackTrace( false ); return 1; } volatile int x = deep( n - 1 ); return x + 1; }
int main() { deep( 40 ); int n = 0; for( std::size_t p = 0; ( p = text.find( "Frame ", p ) ) != std::string::npos; ++p ) ++n; std::printf( "%d frames\n", n ); return n <= 25 ? 0 : 1; }
''', flags=['-g', '-O0', '-fsanitize=address', '-fno-omit-frame-pointer', '-rdynamic'],
 needs='a call stack deeper than the number of frames collected', breaks='the collector stores one frame beyond the end of the frame array'),
dict(id='c16-handler-rearmed-late', property='C16', edits=[('src/system.cpp', '''    setSignalHandling( nullptr );
    callErrorHandler();
''', '''    callErrorHandler();
    setSignalHandling( nullptr );
''')],
 demo=r'''#include "system.hpp"
#include <csignal>
#include <cstdlib>
#include <unistd.h>
static void handler( int s ) { LvArray::system::stackTraceHandler( s, true ); }
static void check() { void ( * old )( int ) = std::signal( SIGFPE, SIG_DFL ); _exit( old == SIG_DFL ? 0 : 1 ); }
int main() { LvArray::system::setSignalHandling( handler ); LvArray::system::setErrorHandler( check ); std::raise( SIGTERM ); return 2; }
''', needs='an error handler that itself raises a signal', breaks='the handlers are still installed when the error handler runs, so a signal raised there re-enters it'),
dict(id='c15-guard-restores-default-only', property='C15', edits=[('src/system.hpp', '{ enableFloatingPointExceptions( m_previousExceptions ); }', '{ enableFloatingPointExceptions( m_previousExceptions & getDefaultFloatingPointExceptions() ); }')],
 demo=r'''#include "system.hpp"
#include <fenv.h>
int main() { LvArray::system::enableFloatingPointExceptions( FE_UNDERFLOW | FE_DIVBYZERO ); { LvArray::system::FloatingPointExceptionGuard g( FE_UNDERFLOW ); } return fegetexcept() == ( FE_UNDERFLOW | FE_DIVBYZERO ) ? 0 : 1; }
''', needs='an exception outside the default set enabled before the guard', breaks='the guard does not re-enable exceptions outside the default set'),
dict(id='c17-sym-off-diagonal', property='C17', edits=[('src/fixedSizeSquareMatrixOpsImpl.hpp', '''    dstSymMatrix[ 4 ] = matrixA[ 0 ][ 0 ] * symMatrixB[ 0 ] * matrixA[ 2 ][ 0 ] +
                        matrixA[ 0 ][ 0 ] * symMatrixB[ 5 ] * matrixA[ 2 ][ 1 ] +
                        matrixA[ 0 ][ 0 ] * symMatrixB[ 4 ] * matrixA[ 2 ][ 2 ] +''', '''    dstSymMatrix[ 4 ] = matrixA[ 0 ][ 0 ] * symMatrixB[ 0 ] * matrixA[ 2 ][ 0 ] +
                        matrixA[ 0 ][ 0 ] * symMatrixB[ 5 ] * matrixA[ 2 ][ 1 ] +
                        matrixA[ 0 ][ 0 ] * symMatrixB[ 3 ] * matrixA[ 2 ][ 2 ] +''')],
 demo=r'''#include "tensorOps.hpp"
#include <cmath>
int main()
{
  double a[ 3 ][ 3 ] = { { 1, 2, 3 }, { 4, 5, 6 }, { 7, 8, 10 } }, b[ 6 ] = { 1, 2, 3, 4, 5, 6 }, d[ 6 ], f[ 3 ][ 3 ] = { { 1, 6, 5 }, { 6, 2, 4 }, { 5, 4, 3 } };
  LvArray::tensorOps::Rij_eq_AikSymBklAjl< 3 >( d, a, b );
  int const I[ 6 ] = { 0, 1, 2, 1, 0, 0 }, J[ 6 ] = { 0, 1, 2, 2, 2, 1 };
  for( int c = 0; c < 6; ++c ) { double s = 0; for( int k = 0; k < 3; ++k ) for( int l = 0; l < 3; ++l ) s += a[ I[ c ] ][ k ] * f[ k ][ l ] * a[ J[ c ] ][ l ]; if( std::abs( s - d[ c ] ) > 1e-9 ) return 1; }
  return 0;
}
''', needs='a symmetric operand whose two off-diagonal components differ and a matrix with non-zero corner entries', breaks='one component of the symmetric congruence product uses the wrong stored component'),
dict(id='c01-shift-up-overlap', property='C01', edits=[('src/arrayManipulation.hpp', 'std::ptrdiff_t const bounds = (index + n < size) ? index + n : size;', 'std::ptrdiff_t const bounds = (index + n < size) ? size : index + n;')],
 demo=None, needs='', breaks=''),
dict(id='c01-erase-run', property='C01', edits=[('src/arrayManipulation.hpp', '  destroy( ptr + size - n, n );', '  destroy( ptr + size - 1, 1 );')],
 demo=r'''#include "arrayManipulation.hpp"
static int alive = 0;
struct E { int v; E( int x ): v( x ) { ++alive; } E( E const & o ): v( o.v ) { ++alive; } E( E && o ): v( o.v ) { ++alive; } E & operator=( E const & ) = default; E & operator=( E && ) = default; ~E() { --alive; } };
int main()
{
  for( int n = 1; n < 4; ++n )
  {
    alignas( E ) char mem[ 10 * sizeof( E ) ]; E * p = reinterpret_cast< E * >( mem );
    for( int i = 0; i < 8; ++i ) new ( p + i ) E( i );
    LvArray::arrayManipulation::erase( p, 8, 2, n );
    if( alive != 8 - n ) return 1;
    for( int i = 0; i < 8 - n; ++i ) p[ i ].~E();
  }
  return alive;
}
''', needs='erasing more than one value at once', breaks='values moved out of at the end are never destroyed'),
dict(id='c03-strides-of-rank-four', property='C03', edits=[('src/indexing.hpp', '      foldedStrides[ i ] *= dims[ perm[ j ] ];', '      foldedStrides[ i ] *= dims[ NDIM > 3 ? perm[ perm[ j ] ] : perm[ j ] ];')],
 demo=r'''#include "indexing.hpp"
using namespace LvArray;
int main()
{
  typeManipulation::CArray< long, 4 > const d = { 2, 3, 5, 7 };
  auto const s = indexing::calculateStrides< camp::idx_seq< 1, 2, 3, 0 > >( d );
  return s[ 0 ] == 1 && s[ 3 ] == 2 && s[ 2 ] == 14 && s[ 1 ] == 70 ? 0 : 1;
}
''', needs='rank four and a permutation that is not its own square root', breaks='strides of a four dimensional layout use the wrong extents'),
dict(id='c13-throw-ge', property='C13', edits=[('src/Macros.hpp', '#define LVARRAY_THROW_IF_GE_MSG( lhs, rhs, msg, TYPE ) LVARRAY_THROW_IF_OP_MSG( lhs, >=, <, rhs, msg, TYPE )', '#define LVARRAY_THROW_IF_GE_MSG( lhs, rhs, msg, TYPE ) LVARRAY_THROW_IF_OP_MSG( lhs, >, <=, rhs, msg, TYPE )')],
 demo=r'''#include "Macros.hpp"
#include <stdexcept>
int main() { int n = 0; for( int i = 1; i <= 3; ++i ) try { LVARRAY_THROW_IF_GE( i, 2, std::runtime_error ); } catch( std::runtime_error const & ) { ++n; } return n == 2 ? 0 : 1; }
''', needs='equal operands', breaks='the check does not fire when its operands are equal'),
dict(id='c19-sqrt-precision', property='C19', edits=[('src/math.hpp', '''double invSqrt( T const x )
{
#if defined( __CUDA_ARCH__ )
  return ::rsqrt( double( x ) );
#else
  return 1 / std::sqrt( x );''', '''double invSqrt( T const x )
{
#if defined( __CUDA_ARCH__ )
  return ::rsqrt( double( x ) );
#else
  return invSqrt( float( x ) );''')],
 demo=r'''#include "math.hpp"
#include <cmath>
int main() { double const x = 1.000000123456789; return std::abs( LvArray::math::invSqrt( x ) - 1 / std::sqrt( x ) ) < 1e-15 && LvArray::math::invSqrt( 4 ) == 0.5 ? 0 : 1; }
''', needs='an argument that single precision cannot represent', breaks='the double precision inverse square root is computed in single precision'),
dict(id='c26-convert-size-remainder', property='C26', edits=[('src/typeManipulation.hpp', '  LVARRAY_ERROR_IF_NE( remainder, 0 );', '  LVARRAY_ERROR_IF_GT( remainder, numUPerT / 2 );')],
 demo=r'''#include "typeManipulation.hpp"
#include <cstdlib>
#include <unistd.h>
static void stop() { _exit( 0 ); }
int main() { LvArray::system::setErrorHandler( stop ); if( LvArray::typeManipulation::convertSize< long, int >( 8L ) != 4 ) return 1; LvArray::typeManipulation::convertSize< long, int >( 9L ); return 1; }
''', needs='a count that is not a multiple, with a small remainder', breaks='an inexact conversion of an element count is accepted'),
dict(id='c09-nested-view-of-temporary', property='C09', edits=[('src/Array.hpp', '  NestedViewTypeConst toNestedViewConst() const && = delete;', '  NestedViewTypeConst toNestedViewConst() const && { return reinterpret_cast< NestedViewTypeConst const & >( *this ); }')],
 demo='', script=r'''# a program that takes a nested read-only view of a temporary has to be rejected, the same program without it accepted
cat > "$d/ok.cpp" <<'EOF'
#include "Array.hpp"
#include "MallocBuffer.hpp"
using A = LvArray::Array< int, 1, camp::idx_seq< 0 >, long, LvArray::MallocBuffer >;
A make();
void f() { A a = make(); auto v = a.toNestedViewConst(); }
EOF
sed 's/A a = make(); auto v = a.toNestedViewConst();/auto v = make().toNestedViewConst();/' "$d/ok.cpp" > "$d/bad.cpp"
g++ -std=c++14 -w -fsyntax-only -I"$here/inc" -I/repo/src "$d/ok.cpp" || exit 1
if g++ -std=c++14 -w -fsyntax-only -I"$here/inc" -I/repo/src "$d/bad.cpp" 2>/dev/null; then exit 1; fi
exit 0
''', needs='a nested read-only view taken from a temporary array', breaks='the view outlives the storage it names and still compiles'),
]
SEEDS = [s for s in SEEDS if s['demo'] is not None]
