// Minimal serial stand-in for camp: just the names LvArray uses.
#pragma once
#include <cstddef>
#include <utility>
#include <tuple>
#include <type_traits>
namespace camp
{
using idx_t = std::ptrdiff_t;
template< idx_t... I > struct idx_seq { static constexpr std::size_t size = sizeof...( I ); };
namespace detail
{
template< class S > struct from_std;
template< std::size_t... I > struct from_std< std::index_sequence< I... > > { using type = idx_seq< static_cast< idx_t >( I )... >; };
template< idx_t N, class S > struct at;
template< idx_t F, idx_t... R > struct at< 0, idx_seq< F, R... > > { static constexpr idx_t value = F; };
template< idx_t N, idx_t F, idx_t... R > struct at< N, idx_seq< F, R... > > { static constexpr idx_t value = at< N - 1, idx_seq< R... > >::value; };
}
template< idx_t N > using make_idx_seq_t = typename detail::from_std< std::make_index_sequence< static_cast< std::size_t >( N ) > >::type;
template< idx_t N > constexpr make_idx_seq_t< N > make_idx_seq() { return {}; }
template< idx_t N, class S > struct seq_at { static constexpr idx_t value = detail::at< N, S >::value; };
namespace concepts { namespace metalib {
template< bool... > struct bools;
template< bool... B > using all_of = std::is_same< bools< true, B... >, bools< B..., true > >;
template< class... T > using all_of_t = all_of< bool( T::value ) ... >;
} }
template< class... T > struct tuple : std::tuple< T... > { using std::tuple< T... >::tuple; };
template< class... T > tuple< typename std::decay< T >::type... > make_tuple( T && ... t ) { return tuple< typename std::decay< T >::type... >( std::forward< T >( t )... ); }
template< idx_t N, class... T > auto get( tuple< T... > & t ) -> decltype( std::get< static_cast< std::size_t >( N ) >( static_cast< std::tuple< T... > & >( t ) ) )
{ return std::get< static_cast< std::size_t >( N ) >( static_cast< std::tuple< T... > & >( t ) ); }
template< idx_t N, class... T > auto get( tuple< T... > const & t ) -> decltype( std::get< static_cast< std::size_t >( N ) >( static_cast< std::tuple< T... > const & >( t ) ) )
{ return std::get< static_cast< std::size_t >( N ) >( static_cast< std::tuple< T... > const & >( t ) ); }
}
