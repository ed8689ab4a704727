// The last pass of a sort in pairs, and duplicate removal: what each comparison found out justifies where each value goes.
#include "sortedArrayManipulation.hpp"
#include "vf.hpp"
using namespace LvArray::sortedArrayManipulation;
#define P_TURN "values are inserted one after the other"
#define P_ROOM "only larger values make room, each by one place"
#define P_PLACE "a value goes where the value before it is known not to be larger"
#define P_ALL "every value has been inserted"
#define P_VISIT "each value is looked at once, in order"
#define P_LAST "a value is compared with the last one kept"
#define P_KEPT "a value found different is kept in the next place"
#define P_SAY "a range is said to be sorted when no value is less than the one before it"
#define P_COUNT "the number of values kept is returned"

extern "C"
{
bool vf_is_temp( void const * ) noexcept;
long vf_index( void const *, int side ) noexcept;
long vf_answer( void const *, void const * ) noexcept;
long vfg_out, vfg_hole, vfg_done, vfg_left, vfg_right, vfg_res, vfg_least, vfg_kept, vfg_seen, vfg_owed, vfg_from;
}
struct Value
{
  char c;
  long at() const { return vf_index( this, 0 ); }
  Value() = delete;
  Value( Value const & ) = delete;
  Value & operator=( Value const & ) = delete;
  Value( Value && src ) noexcept
  {
    vf_prove( !vf_is_temp( &src ), P_TURN );
    vf_prove( vfg_out == 0 && src.at() == vfg_done, P_TURN );
    vfg_out = 1; vfg_hole = src.at(); vfg_left = -2;
  }
  Value & operator=( Value && src ) noexcept
  {
    vf_prove( vfg_out == 1, P_PLACE );
    vf_prove( vfg_hole == at(), P_PLACE );
    if( vf_is_temp( &src ) )
    {
      if( vfg_hole != 0 ) vf_prove( vfg_left == -1 && vfg_right == vfg_hole - 1 && vfg_res == 0, P_PLACE );
      vfg_out = 0; vfg_done = vfg_done + 1; vfg_least = 2; vfg_left = -2;
    }
    else
    {
      vf_prove( src.at() == vfg_hole - 1 && src.at() >= 0, P_ROOM );
      if( vfg_least != 1 ) vf_prove( vfg_left == -1 && vfg_right == src.at() && vfg_res == 1, P_ROOM );
      vfg_hole = src.at(); vfg_left = -2;
    }
    return *this;
  }
};
struct Less
{
  bool operator()( Value const & x, Value const & y ) const
  {
    long const r = vf_answer( &x, &y );
    vfg_left = vf_is_temp( &x ) ? -1 : x.at();
    vfg_right = vf_is_temp( &y ) ? -1 : y.at();
    if( vfg_right == 0 )
    {
      // the same question has the same answer
      if( vfg_left == -1 ) { if( vfg_least == 0 ) vf_assume( r == 0 ); }
      else if( vfg_left == vfg_done ) vfg_least = r;
    }
    vfg_res = r;
    return r != 0;
  }
};
extern "C" void vf_insertion( Value * a, long n, char * b )
{
  vf_assume( n >= 0 && n <= 64 );
  vfg_out = 0; vfg_done = 1; vfg_least = 2; vfg_left = -2; vfg_hole = 0; vfg_right = 0; vfg_res = 0;
  dualSort( a, a + n, b, Less{} );
  vf_prove( vfg_out == 0 && vfg_done >= n, P_ALL );
}

struct Item
{
  char c;
  long at() const { return vf_index( this, 0 ); }
  Item() = delete;
  Item( Item const & ) = delete;
  Item( Item && ) noexcept;
  Item & operator=( Item const & ) = delete;
  Item & operator=( Item && src ) noexcept
  {
    // what is behind the values kept and has been looked at does not matter
    if( at() >= vfg_kept && at() < vfg_seen ) return *this;
    vf_prove( vfg_owed == 1 && src.at() == vfg_from && at() == vfg_kept - 1, P_KEPT );
    vfg_owed = 0;
    return *this;
  }
};
struct Before
{
  bool operator()( Item const & x, Item const & y ) const
  {
    long const i = x.at(), j = y.at();
    vf_prove( vfg_owed == 0, P_KEPT );
    vf_prove( i == vfg_kept - 1, P_LAST );
    if( !( vfg_seen == 0 && j == 1 ) ) vf_prove( j == vfg_seen, P_VISIT );
    vfg_seen = j + 1;
    long const r = vf_answer( &x, &y );
    if( i == j ) vf_assume( r == 0 );
    if( r != 0 )
    {
      vfg_kept = vfg_kept + 1;
      if( j != vfg_kept - 1 ) { vfg_owed = 1; vfg_from = j; }
    }
    return r != 0;
  }
};
extern "C" void vf_unique( Item * a, long n )
{
  vf_assume( n >= 0 );
  vfg_owed = 0; vfg_kept = 1; vfg_seen = 0; vfg_from = 0;
  long const k = removeDuplicates( a, a + n, Before{} );
  vf_prove( vfg_owed == 0, P_KEPT );
  if( n > 1 ) vf_prove( vfg_seen == n, P_VISIT );
  vf_prove( k == ( n == 0 ? 0 : vfg_kept ), P_COUNT );
}

// The range is sorted as a whole (by the standard library, or by a pass that inserts) before the duplicates are removed.
extern "C" void vf_sortunique( Item * a, long n )
{
  vf_assume( n >= 0 );
  vfg_owed = 0; vfg_kept = 1; vfg_seen = 0; vfg_from = 0;
  long const k = makeSortedUnique( a, a + n, Before{} );
  vf_prove( vfg_owed == 0, P_KEPT );
  if( n > 1 ) vf_prove( vfg_seen == n, P_VISIT );
  vf_prove( k == ( n == 0 ? 0 : vfg_kept ), P_COUNT );
}
extern "C" void vf_sort( Item * a, long n ) { vf_assume( n >= 0 ); makeSorted( a, a + n, Before{} ); }

struct Next
{
  bool operator()( Item const & x, Item const & y ) const
  {
    long const r = vf_answer( &x, &y );
    vf_prove( x.at() == y.at() + 1 && y.at() == vfg_seen, P_SAY );
    vf_prove( vfg_res == 0, P_SAY );
    vfg_seen = vfg_seen + 1;
    vfg_res = r;
    return r != 0;
  }
};
extern "C" void vf_ordered( Item * a, long n )
{
  vf_assume( n >= 0 );
  vfg_seen = 0; vfg_res = 0;
  bool const k = isSorted( a, a + n, Next{} );
  if( k ) { vf_prove( vfg_res == 0 && vfg_seen + 1 >= n, P_SAY ); }
  else { vf_prove( vfg_res == 1, P_SAY ); }
}
