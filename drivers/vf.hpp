// Markers understood by the analyzer.  They are declarations only; the drivers are never linked or run.
#pragma once
extern "C"
{
void vf_label( char const * ) noexcept;
void vf_assume( bool ) noexcept;
void vf_prove( bool, char const * ) noexcept;
}
// An element type about which nothing is known.
struct Elem
{
  int v;
  Elem() noexcept; Elem( Elem const & ) noexcept; Elem( Elem && ) noexcept; ~Elem() noexcept;
  Elem & operator=( Elem const & ) noexcept; Elem & operator=( Elem && ) noexcept;
  bool operator<( Elem const & ) const noexcept; bool operator>( Elem const & ) const noexcept;
  bool operator<=( Elem const & ) const noexcept; bool operator>=( Elem const & ) const noexcept;
  bool operator==( Elem const & ) const noexcept; bool operator!=( Elem const & ) const noexcept;
};
extern "C"
{
void vf_live( Elem const * p, long n, char const * tag ) noexcept;   // p[0,n) hold tag[0,n)
void vf_raw( Elem const * p, long n ) noexcept;                      // p[0,n) hold nothing
void vf_expect_raw( Elem const * p, long lo, long hi ) noexcept;
void vf_expect_seq( Elem const * p, long lo, long hi, char const * tag, long shift ) noexcept; // p[k] is tag[k+shift]
void vf_expect_all( Elem const * p, long lo, long hi, char const * tag, long idx ) noexcept;   // p[k] is tag[idx]
void vf_expect_default( Elem const * p, long lo, long hi ) noexcept;
void vf_expect_alive( Elem const * p, long lo, long hi ) noexcept;
}
