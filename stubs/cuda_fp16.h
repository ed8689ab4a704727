// Minimal declarations of the half precision types that LvArray names when a device is configured (see camp/camp.hpp).
#pragma once
struct __half
{
  unsigned short vf_bits;
  __half() = default;
  __half( float ) noexcept; __half( double ) noexcept; __half( int ) noexcept; __half( long ) noexcept; __half( long long ) noexcept; __half( unsigned ) noexcept; __half( unsigned long ) noexcept; __half( unsigned long long ) noexcept; __half( short ) noexcept;
  operator float() const noexcept;
  __half & operator=( float ) noexcept; __half & operator=( double ) noexcept; __half & operator=( int ) noexcept;
};
struct __half2 { __half x, y; __half2() = default; __half2( __half, __half ) noexcept; };
using half = __half; using half2 = __half2;
__half operator+( __half const &, __half const & ) noexcept;
__half & operator+=( __half &, __half const & ) noexcept;
__half operator-( __half const &, __half const & ) noexcept;
__half & operator-=( __half &, __half const & ) noexcept;
__half operator*( __half const &, __half const & ) noexcept;
__half & operator*=( __half &, __half const & ) noexcept;
__half operator/( __half const &, __half const & ) noexcept;
__half & operator/=( __half &, __half const & ) noexcept;
__half operator-( __half const & ) noexcept;
bool operator==( __half const &, __half const & ) noexcept;
bool operator!=( __half const &, __half const & ) noexcept;
bool operator<( __half const &, __half const & ) noexcept;
bool operator>( __half const &, __half const & ) noexcept;
bool operator<=( __half const &, __half const & ) noexcept;
bool operator>=( __half const &, __half const & ) noexcept;
__half2 operator+( __half2 const &, __half2 const & ) noexcept;
__half2 & operator+=( __half2 &, __half2 const & ) noexcept;
__half2 operator-( __half2 const &, __half2 const & ) noexcept;
__half2 & operator-=( __half2 &, __half2 const & ) noexcept;
__half2 operator*( __half2 const &, __half2 const & ) noexcept;
__half2 & operator*=( __half2 &, __half2 const & ) noexcept;
__half2 operator/( __half2 const &, __half2 const & ) noexcept;
__half2 & operator/=( __half2 &, __half2 const & ) noexcept;
__half2 operator-( __half2 const & ) noexcept;
bool operator==( __half2 const &, __half2 const & ) noexcept;
bool operator!=( __half2 const &, __half2 const & ) noexcept;
bool operator<( __half2 const &, __half2 const & ) noexcept;
bool operator>( __half2 const &, __half2 const & ) noexcept;
bool operator<=( __half2 const &, __half2 const & ) noexcept;
bool operator>=( __half2 const &, __half2 const & ) noexcept;
__half hneg( __half ) noexcept;
__half habs( __half ) noexcept;
__half hsqrt( __half ) noexcept;
__half hrsqrt( __half ) noexcept;
__half hsin( __half ) noexcept;
__half hcos( __half ) noexcept;
__half htan( __half ) noexcept;
__half htanh( __half ) noexcept;
__half hexp( __half ) noexcept;
__half hexp2( __half ) noexcept;
__half hexp10( __half ) noexcept;
__half hlog( __half ) noexcept;
__half hlog2( __half ) noexcept;
__half hlog10( __half ) noexcept;
__half hrcp( __half ) noexcept;
__half hceil( __half ) noexcept;
__half hfloor( __half ) noexcept;
__half htrunc( __half ) noexcept;
__half hrint( __half ) noexcept;
__half2 h2sqrt( __half2 ) noexcept;
__half2 h2rsqrt( __half2 ) noexcept;
__half2 h2sin( __half2 ) noexcept;
__half2 h2cos( __half2 ) noexcept;
__half2 h2exp( __half2 ) noexcept;
__half2 h2exp2( __half2 ) noexcept;
__half2 h2exp10( __half2 ) noexcept;
__half2 h2log( __half2 ) noexcept;
__half2 h2log2( __half2 ) noexcept;
__half2 h2log10( __half2 ) noexcept;
__half2 h2rcp( __half2 ) noexcept;
__half2 h2ceil( __half2 ) noexcept;
__half2 h2floor( __half2 ) noexcept;
__half2 h2trunc( __half2 ) noexcept;
__half2 h2rint( __half2 ) noexcept;
__half __hneg( __half ) noexcept;
__half2 __hneg2( __half2 ) noexcept;
__half __habs( __half ) noexcept;
__half2 __habs2( __half2 ) noexcept;
__half __hadd( __half, __half ) noexcept;
__half2 __hadd2( __half2, __half2 ) noexcept;
__half __hsub( __half, __half ) noexcept;
__half2 __hsub2( __half2, __half2 ) noexcept;
__half __hmul( __half, __half ) noexcept;
__half2 __hmul2( __half2, __half2 ) noexcept;
__half __hdiv( __half, __half ) noexcept;
__half2 __hdiv2( __half2, __half2 ) noexcept;
__half __hadd_sat( __half, __half ) noexcept;
__half2 __hadd2_sat( __half2, __half2 ) noexcept;
__half __hsub_sat( __half, __half ) noexcept;
__half2 __hsub2_sat( __half2, __half2 ) noexcept;
__half __hmul_sat( __half, __half ) noexcept;
__half2 __hmul2_sat( __half2, __half2 ) noexcept;
__half __hmax( __half, __half ) noexcept;
__half2 __hmax2( __half2, __half2 ) noexcept;
__half __hmin( __half, __half ) noexcept;
__half2 __hmin2( __half2, __half2 ) noexcept;
__half __hmax_nan( __half, __half ) noexcept;
__half2 __hmax2_nan( __half2, __half2 ) noexcept;
__half __hmin_nan( __half, __half ) noexcept;
__half2 __hmin2_nan( __half2, __half2 ) noexcept;
__half __hfma( __half, __half, __half ) noexcept;
__half2 __hfma2( __half2, __half2, __half2 ) noexcept;
__half2 __h2div( __half2, __half2 ) noexcept;
bool __heq( __half, __half ) noexcept;
__half2 __heq2( __half2, __half2 ) noexcept;
bool __hbeq2( __half2, __half2 ) noexcept;
bool __hne( __half, __half ) noexcept;
__half2 __hne2( __half2, __half2 ) noexcept;
bool __hbne2( __half2, __half2 ) noexcept;
bool __hlt( __half, __half ) noexcept;
__half2 __hlt2( __half2, __half2 ) noexcept;
bool __hblt2( __half2, __half2 ) noexcept;
bool __hle( __half, __half ) noexcept;
__half2 __hle2( __half2, __half2 ) noexcept;
bool __hble2( __half2, __half2 ) noexcept;
bool __hgt( __half, __half ) noexcept;
__half2 __hgt2( __half2, __half2 ) noexcept;
bool __hbgt2( __half2, __half2 ) noexcept;
bool __hge( __half, __half ) noexcept;
__half2 __hge2( __half2, __half2 ) noexcept;
bool __hbge2( __half2, __half2 ) noexcept;
bool __hisnan( __half ) noexcept; __half2 __hisnan2( __half2 ) noexcept; int __hisinf( __half ) noexcept;
__half __low2half( __half2 ) noexcept; __half __high2half( __half2 ) noexcept; float __low2float( __half2 ) noexcept; float __high2float( __half2 ) noexcept;
__half2 __low2half2( __half2 ) noexcept; __half2 __high2half2( __half2 ) noexcept; __half2 __lowhigh2highlow( __half2 ) noexcept;
__half __float2half( float ) noexcept; __half __float2half_rn( float ) noexcept; __half __double2half( double ) noexcept; float __half2float( __half ) noexcept;
__half2 __float2half2_rn( float ) noexcept; __half2 __floats2half2_rn( float, float ) noexcept; __half2 __half2half2( __half ) noexcept; __half2 __halves2half2( __half, __half ) noexcept; __half2 make_half2( __half, __half ) noexcept;
__half __int2half_rn( int ) noexcept; int __half2int_rn( __half ) noexcept; unsigned short __half_as_ushort( __half ) noexcept; __half __ushort_as_half( unsigned short ) noexcept;
