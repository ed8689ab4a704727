// owners of several allocations: every one of them is released once
#include "vf.hpp"
#include "MallocBuffer.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
using namespace LvArray;
extern "C" { void vf_use( void const * ) noexcept; }
#define RES( f ) extern "C" void vf_##f
#define SZ "the size after the operation"
#define DEEP "a copy has storage of its own"
#define SAME "a move hands over the storage"
#if VF_KIND == 0
using A = ArrayOfArrays< int, long, MallocBuffer >;
#define N( a ) a.size()
#define MAKE( a, n ) A a; vf_assume( n > 0 ); a.resize( n, 5 )
#define VCAP( a ) a.valueCapacity()
#define VALUES( a ) a.toView().getValues()
#define SIZES( a ) a.toView().getSizes()
#elif VF_KIND == 1
using A = ArrayOfSets< int, long, MallocBuffer >;
#define N( a ) a.size()
#define MAKE( a, n ) A a; vf_assume( n > 0 ); a.resize( n, 5 )
#define VCAP( a ) a.valueCapacity()
#define VALUES( a ) a.toView().getValues()
#define SIZES( a ) a.toView().getSizes()
#elif VF_KIND == 2
using A = SparsityPattern< int, long, MallocBuffer >;
#define N( a ) a.numRows()
#define MAKE( a, n ) A a; vf_assume( n > 0 ); a.resize( n, 9, 5 )
#define VCAP( a ) a.nonZeroCapacity()
#define VALUES( a ) a.getColumns()
#define SIZES( a ) a.toView().getSizes()
#else
using A = CRSMatrix< int, int, long, MallocBuffer >;
#define N( a ) a.numRows()
#define MAKE( a, n ) A a; vf_assume( n > 0 ); a.resize( n, 9, 5 )
#define VCAP( a ) a.nonZeroCapacity()
#define VALUES( a ) a.getColumns()
#define SIZES( a ) a.toView().getSizes()
#endif
#define EMPTY( a ) vf_prove( N( a ) == 0, "a moved from container is empty" ); vf_prove( VCAP( a ) == 0, "a moved from container holds no storage" ); NOCOLS( a )
#if VF_KIND == 3
#define ENTRIES( a ) a.getEntries()
#define APART( a, b ) vf_prove( VALUES( a ) != VALUES( b ), DEEP ); vf_prove( a.getOffsets() != b.getOffsets(), DEEP ); vf_prove( SIZES( a ) != SIZES( b ), DEEP ); vf_prove( ENTRIES( a ) != ENTRIES( b ), DEEP )
#define KEEP( a ) auto const vals = VALUES( a ); auto const offs = a.toView().getOffsets(); auto const szs = SIZES( a ); auto const ents = ENTRIES( a )
#define HANDED( a ) vf_prove( VALUES( a ) == vals, SAME ); vf_prove( a.toView().getOffsets() == offs, SAME ); vf_prove( SIZES( a ) == szs, SAME ); vf_prove( ENTRIES( a ) == ents, SAME )
#else
#define APART( a, b ) vf_prove( VALUES( a ) != VALUES( b ), DEEP ); vf_prove( a.toView().getOffsets() != b.toView().getOffsets(), DEEP ); vf_prove( SIZES( a ) != SIZES( b ), DEEP )
#define KEEP( a ) auto const vals = VALUES( a ); auto const offs = a.toView().getOffsets(); auto const szs = SIZES( a )
#define HANDED( a ) vf_prove( VALUES( a ) == vals, SAME ); vf_prove( a.toView().getOffsets() == offs, SAME ); vf_prove( SIZES( a ) == szs, SAME )
#endif
#if VF_KIND >= 2
#define COLS( a, b ) vf_prove( a.numColumns() == b.numColumns(), SZ )
#define NOCOLS( a ) vf_prove( a.numColumns() == 0, "a moved from container is empty" )
#define NINE( a ) vf_prove( a.numColumns() == 9, SZ )
#else
#define COLS( a, b )
#define NOCOLS( a )
#define NINE( a )
#endif
#define IS( a, n ) vf_prove( N( a ) == n, SZ ); NINE( a )
RES( construct )() { A a; vf_prove( N( a ) == 0, SZ ); }
RES( make )( long n ) { MAKE( a, n ); IS( a, n ); }
RES( copy )( long n ) { MAKE( a, n ); A b( static_cast< A const & >( a ) ); IS( a, n ); IS( b, n ); APART( a, b ); }
RES( move )( long n ) { MAKE( a, n ); KEEP( a ); A b( std::move( a ) ); IS( b, n ); HANDED( b ); EMPTY( a ); }
RES( assign )( long n, long m ) { MAKE( a, n ); MAKE( b, m ); b = static_cast< A const & >( a ); IS( a, n ); IS( b, n ); APART( a, b ); }
RES( assignNew )( long n ) { MAKE( a, n ); A b; b = static_cast< A const & >( a ); IS( a, n ); IS( b, n ); APART( a, b ); }
RES( assignEmpty )( long n ) { MAKE( a, n ); A b; a = static_cast< A const & >( b ); vf_prove( N( a ) == 0, SZ ); COLS( a, b ); }
RES( assignSelf )( long n ) { MAKE( a, n ); KEEP( a ); a = static_cast< A const & >( a ); IS( a, n ); HANDED( a ); }
RES( moveAssign )( long n, long m ) { MAKE( a, n ); MAKE( b, m ); KEEP( a ); b = std::move( a ); IS( b, n ); HANDED( b ); EMPTY( a ); }
RES( moveAssignNew )( long n ) { MAKE( a, n ); A b; KEEP( a ); b = std::move( a ); IS( b, n ); HANDED( b ); EMPTY( a ); }
RES( moveAssignSelf )( long n ) { MAKE( a, n ); A & b = a; a = std::move( b ); }
RES( copyMoved )( long n ) { MAKE( a, n ); A b( std::move( a ) ); A c( static_cast< A const & >( a ) ); vf_prove( N( c ) == 0, SZ ); b = static_cast< A const & >( a ); vf_prove( N( b ) == 0, SZ ); }
RES( reuseMoved )( long n ) { MAKE( a, n ); A b( std::move( a ) ); a = static_cast< A const & >( b ); IS( a, n ); IS( b, n ); APART( a, b ); }
RES( swap )( long n, long m ) { MAKE( a, n ); MAKE( b, m ); KEEP( a ); std::swap( a, b ); IS( a, m ); IS( b, n ); HANDED( b ); }
#if VF_KIND < 2
RES( grow )( long n ) { MAKE( a, n ); a.resize( n ); a.reserve( n ); IS( a, n ); }
#else
RES( grow )( long n ) { MAKE( a, n ); a.reserveNonZeros( n * 7 ); a.compress(); IS( a, n ); }
#endif
#if VF_KIND == 0
using OA = ArrayOfSets< int, long, MallocBuffer >;
RES( assimilate )( long n, long m ) { OA a; vf_assume( n > 0 ); a.resize( n, 5 ); MAKE( b, m ); KEEP( a ); b.assimilate( std::move( a ) ); IS( b, n ); HANDED( b ); EMPTY( a ); }
#elif VF_KIND == 1
using OA = ArrayOfArrays< int, long, MallocBuffer >;
RES( assimilate )( long n, long m ) { OA a; vf_assume( n > 0 ); a.resize( n, 5 ); MAKE( b, m ); KEEP( a ); b.assimilate( std::move( a ), sortedArrayManipulation::SORTED_UNIQUE ); IS( b, n ); HANDED( b ); EMPTY( a ); }
#elif VF_KIND == 3
using OA = SparsityPattern< int, long, MallocBuffer >;
RES( assimilate )( long n, long m ) { OA a; vf_assume( n > 0 ); a.resize( n, 9, 5 ); MAKE( b, m ); auto const vals = VALUES( a ); auto const offs = a.getOffsets(); b.assimilate< RAJA::loop_exec >( std::move( a ) ); IS( b, n ); vf_prove( VALUES( b ) == vals, SAME ); vf_prove( b.getOffsets() == offs, SAME ); EMPTY( a ); }
#endif
