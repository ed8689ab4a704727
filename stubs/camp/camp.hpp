// Minimal declarations of the parts of LLNL camp that LvArray names; used only so that LvArray's headers can be
// parsed and instantiated for analysis. Nothing here is ever executed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <tuple>
#include <type_traits>
#include <utility>
namespace camp
{
using idx_t = std::ptrdiff_t;
template< idx_t... I > struct idx_seq { using type = idx_seq; static constexpr idx_t size = sizeof...( I ); };
template< idx_t... I > using int_seq_idx = idx_seq< I... >;
template< typename T > struct list_elem { using type = T; };
namespace vf_detail
{
template< idx_t N, idx_t... I > struct mk : mk< N - 1, N - 1, I... > {};
template< idx_t... I > struct mk< 0, I... > { using type = idx_seq< I... >; };
template< bool... > struct bools;
}
template< idx_t N > struct make_idx_seq { using type = typename vf_detail::mk< N >::type; };
template< idx_t N > using make_idx_seq_t = typename vf_detail::mk< N >::type;
template< typename... T > using idx_seq_for_t = make_idx_seq_t< sizeof...( T ) >;
template< idx_t N > struct num { static constexpr idx_t value = N; using type = num; };
template< idx_t N, typename SEQ > struct seq_at;
template< idx_t H, idx_t... T > struct seq_at< 0, idx_seq< H, T... > > : num< H > {};
template< idx_t N, idx_t H, idx_t... T > struct seq_at< N, idx_seq< H, T... > > : seq_at< N - 1, idx_seq< T... > > {};
template< typename... T > using tuple = std::tuple< T... >;
template< typename... T > constexpr std::tuple< std::decay_t< T >... > make_tuple( T && ... t )
{ return std::tuple< std::decay_t< T >... >( std::forward< T >( t )... ); }
template< idx_t I, typename TUPLE > constexpr auto & get( TUPLE & t ) { return std::get< I >( t ); }
template< idx_t I, typename TUPLE > constexpr auto const & get( TUPLE const & t ) { return std::get< I >( t ); }
template< typename... T > struct list {};
namespace concepts { namespace metalib
{
template< bool... B > struct all_of : std::is_same< vf_detail::bools< true, B... >, vf_detail::bools< B..., true > > {};
template< typename... T > struct all_of_t : all_of< bool( T::value )... > {};
} }
}
