SEEDS = [
dict(id='c27-range-stack-one-short', property='C27', edits=[('src/sortedArrayManipulationHelpers.hpp', '  constexpr int MAX_RANGES = 31;\n  RandomAccessIterator ranges[MAX_RANGES + 1];', '  constexpr int MAX_RANGES = 31;\n  RandomAccessIterator ranges[MAX_RANGES];')], demo=r'''#include "sortedArrayManipulation.hpp"
#include <vector>
// an adversary decides the order of the values while the sort asks
static std::vector< int > val; static int nsolid, candidate, gas;
int main()
{
  int const n = 5000;
  gas = n; val.assign( n, gas ); nsolid = 0; candidate = 0;
  std::vector< int > a( n ), b( n );
  for( int i = 0; i < n; ++i ) { a[ i ] = i; b[ i ] = i; }
  auto less = []( int x, int y )
  {
    if( val[ x ] == gas && val[ y ] == gas ) { if( x == candidate ) val[ x ] = nsolid++; else val[ y ] = nsolid++; }
    if( val[ x ] == gas ) candidate = x; else if( val[ y ] == gas ) candidate = y;
    return val[ x ] < val[ y ];
  };
  LvArray::sortedArrayManipulation::dualSort( a.begin(), a.end(), b.begin(), less );
  for( int i = 0; i < n; ++i ) if( a[ i ] != b[ i ] ) return 1;
  return 0;
}
''', flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], needs='an order of the values that makes every partition uneven', breaks='the stack of ranges is overrun'),
dict(id='c27-large-range-last-value', property='C27', edits=[('src/sortedArrayManipulation.hpp', '    internal::introsortLoop( dualIter, dualIter + size, dualCompare );\n  }\n\n  internal::insertionSort( dualIter, size, dualCompare );', '    internal::introsortLoop( dualIter, dualIter + size, dualCompare );\n    internal::insertionSort( dualIter, size - 1, dualCompare );\n    return;\n  }\n\n  internal::insertionSort( dualIter, size, dualCompare );')], demo=r'''#include "sortedArrayManipulation.hpp"
#include <vector>
int main()
{
  for( int n = 0; n < 400; ++n )
    for( int seed = 1; seed < 20; ++seed )
    {
      std::vector< int > a( n ), b( n );
      unsigned x = seed * 7919u;
      for( int i = 0; i < n; ++i ) { x = x * 1664525u + 1013904223u; a[ i ] = ( x >> 8 ) % 1000; b[ i ] = a[ i ] * 3; }
      LvArray::sortedArrayManipulation::dualSort( a.begin(), a.end(), b.begin() );
      for( int i = 0; i < n; ++i ) if( b[ i ] != 3 * a[ i ] || ( i && a[ i - 1 ] > a[ i ] ) ) return 1;
    }
  return 0;
}
''', needs='more than 64 values, the largest of the last part not in the last place after partitioning', breaks='the last value of a large range is not inserted'),
dict(id='c27-median-partner-left-behind', property='C27', edits=[('src/sortedArrayManipulationHelpers.hpp', '  { return DualIterator( m_itA + offset, m_itB + offset ); }', '  { return DualIterator( m_itA + offset, m_itB + ( offset / 64 == 0 ? offset : offset & ~std::ptrdiff_t( 63 ) ) ); }')], demo=r'''#include "sortedArrayManipulation.hpp"
#include <vector>
int main()
{
  for( int n = 0; n < 400; ++n )
    for( int seed = 1; seed < 5; ++seed )
    {
      std::vector< int > a( n ), b( n + 400 );
      unsigned x = seed * 7919u;
      for( int i = 0; i < n; ++i ) { x = x * 1664525u + 1013904223u; a[ i ] = ( x >> 8 ) % 1000; b[ i ] = a[ i ] * 3; }
      LvArray::sortedArrayManipulation::dualSort( a.begin(), a.end(), b.begin() );
      for( int i = 0; i < n; ++i ) if( b[ i ] != 3 * a[ i ] ) return 1;
    }
  return 0;
}
''', needs='more than 64 values', breaks='far positions of the second range are not those of the first'),
dict(id='c27-duplicate-of-the-previous', property='C27', edits=[('src/sortedArrayManipulation.hpp', '      if( first != next )\n      {\n        *first = std::move( *next );', '      if( next - first > 1 )\n      {\n        *first = std::move( *next );')], demo=r'''#include "sortedArrayManipulation.hpp"
#include <vector>
int main()
{
  std::vector< int > a{ 1, 1, 2, 3, 3, 4 };
  long const n = LvArray::sortedArrayManipulation::removeDuplicates( a.begin(), a.end() );
  if( n != 4 ) return 1;
  for( int i = 0; i < 4; ++i ) if( a[ i ] != i + 1 ) return 1;
  return 0;
}
''', needs='a duplicate directly before a value that has to move by one place', breaks='a value kept is not moved to its place'),
]
