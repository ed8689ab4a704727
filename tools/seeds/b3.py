import runpy, os
UMP = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b2.py'))['UMP']
SEEDS = [
dict(id='c25-shrink-keeps-objects', property='C25', edits=[('src/MallocBuffer.hpp', 'arrayManipulation::destroy( m_data, size );', 'arrayManipulation::destroy( m_data, overlapAmount );')], demo=r'''#include "MallocBuffer.hpp"
static int alive = 0;
struct E { E() { ++alive; } E( E const & ) { ++alive; } E( E && ) { ++alive; } ~E() { --alive; } };
int main()
{
  LvArray::MallocBuffer< E > b( true );
  b.reallocate( 0, LvArray::MemorySpace::host, 5 );
  for( int i = 0; i < 5; ++i ) new ( b.data() + i ) E();
  b.reallocate( 5, LvArray::MemorySpace::host, 3 );
  int const kept = alive;
  for( int i = 0; i < 3; ++i ) b[ i ].~E();
  b.free();
  return kept == 3 && alive == 0 ? 0 : 1;
}
''', needs='reallocating to less than the number of values', breaks='values beyond the new capacity are never destroyed'),
dict(id='c18-second-extent-at-least', property='C18', edits=[('src/genericTensorOps.hpp', 'static_assert( PROVIDED_N == INFERRED_N,', 'static_assert( PROVIDED_N <= INFERRED_N,')], demo='', script=r'''# a matrix with more columns than named in the call has to be rejected, a matching one accepted
cat > "$d/ok.cpp" <<'EOF'
#include "tensorOps.hpp"
#define N 3
double f( double ( &m )[ 2 ][ N ] ) { LvArray::tensorOps::scale< 2, 3 >( m, 2.0 ); return m[ 0 ][ 0 ]; }
EOF
sed 's/#define N 3/#define N 4/' "$d/ok.cpp" > "$d/bad.cpp"
g++ -std=c++14 -w -fsyntax-only -I"$here/inc" -I/repo/src "$d/ok.cpp" || exit 1
if g++ -std=c++14 -w -fsyntax-only -I"$here/inc" -I/repo/src "$d/bad.cpp" 2>/dev/null; then exit 1; fi
exit 0
''', needs='a C array with more columns than named', breaks='the mismatch of the second extent compiles'),
dict(id='c28-tab-in-type-name', property='C28', edits=[('src/totalview/tv_data_display.c', r'''  if( my_strpbrk( type_name, "\n\t" ) != NULL )''', r'''  if( my_strpbrk( type_name, "\n" ) != NULL )''')], demo=r'''extern "C" {
#include "totalview/tv_data_display.c"
}
int main()
{
  TV_ttf_pre_display_callback();
  int x = 0;
  if( TV_ttf_add_row( "f", "int", &x ) != TV_ttf_ec_ok ) return 1;
  return TV_ttf_add_row( "f", "a\tb", &x ) == TV_ttf_ec_invalid_characters ? 0 : 1;
}
''', flags=['-fpermissive'], needs='a type name with a separator in it', breaks='a malformed row is added and reported as success'),
dict(id='c30-prints-capacity', property='C30', edits=[('src/output.hpp', 'for( INDEX_TYPE j = 0; j < view.sizeOfArray( i ); ++j )', 'for( INDEX_TYPE j = 0; j < view.capacityOfArray( i ); ++j )')], demo=r'''#include "ArrayOfArrays.hpp"
#include "MallocBuffer.hpp"
#include <array>
#include <sstream>
#include "output.hpp"
''' + UMP + r'''
int main()
{
  LvArray::ArrayOfArrays< int, long, LvArray::MallocBuffer > a( 2, 3 );
  a.emplaceBack( 0, 7 );
  std::ostringstream s;
  s << a;
  int n = 0;
  for( char c : s.str() ) n += c == ',';
  return n == 1 ? 0 : 1;
}
''', needs='an array with spare capacity', breaks='values that do not exist are printed'),
dict(id='c26-rank-five-permutation', property='C26', edits=[], demo=None, needs='', breaks=''),
]
SEEDS = [s for s in SEEDS if s['demo'] is not None]
