// Minimal stand-in for RAJA: serial loops and scans; atomics are scheduling points of the checker when it runs threads.
#pragma once
#include <camp/camp.hpp>
#include <type_traits>
extern "C" { void lv_sched(); void lv_atomic_begin(); void lv_atomic_end(); }
namespace RAJA
{
template< camp::idx_t... I > using Perm = camp::idx_seq< I... >;
using PERM_I = camp::idx_seq< 0 >;
using PERM_IJ = camp::idx_seq< 0, 1 >; using PERM_JI = camp::idx_seq< 1, 0 >;
using PERM_IJK = camp::idx_seq< 0, 1, 2 >; using PERM_IKJ = camp::idx_seq< 0, 2, 1 >; using PERM_JIK = camp::idx_seq< 1, 0, 2 >;
using PERM_JKI = camp::idx_seq< 1, 2, 0 >; using PERM_KIJ = camp::idx_seq< 2, 0, 1 >; using PERM_KJI = camp::idx_seq< 2, 1, 0 >;
using PERM_IJKL = camp::idx_seq< 0, 1, 2, 3 >; using PERM_LKJI = camp::idx_seq< 3, 2, 1, 0 >; using PERM_KILJ = camp::idx_seq< 2, 0, 3, 1 >; using PERM_JLIK = camp::idx_seq< 1, 3, 0, 2 >;
using PERM_IJKLM = camp::idx_seq< 0, 1, 2, 3, 4 >; using PERM_MLKJI = camp::idx_seq< 4, 3, 2, 1, 0 >;
struct seq_reduce {}; struct loop_reduce {};
template< class POLICY, class T > struct ReduceBitAnd { T own; T * at; ReduceBitAnd( T v ): own( v ), at( &own ) {} ReduceBitAnd( ReduceBitAnd const & o ): own( o.own ), at( o.at ) {} template< class U > ReduceBitAnd const & operator&=( U v ) const { *at &= v; return *this; } T get() const { return *at; } operator T() const { return *at; } };
template< class POLICY, class T > struct ReduceBitOr { T own; T * at; ReduceBitOr( T v ): own( v ), at( &own ) {} ReduceBitOr( ReduceBitOr const & o ): own( o.own ), at( o.at ) {} template< class U > ReduceBitOr const & operator|=( U v ) const { *at |= v; return *this; } T get() const { return *at; } operator T() const { return *at; } };
template< class POLICY, class T > struct ReduceSum { T own; T * at; ReduceSum( T v ): own( v ), at( &own ) {} ReduceSum( ReduceSum const & o ): own( o.own ), at( o.at ) {} template< class U > ReduceSum const & operator+=( U v ) const { *at += v; return *this; } T get() const { return *at; } operator T() const { return *at; } };
struct seq_exec {}; struct loop_exec {}; struct seq_atomic {}; struct builtin_atomic {}; struct auto_atomic {};
template< class I > struct TypedRangeSegment { I a, b; TypedRangeSegment( I x, I y ): a( x ), b( y ) {} };
using RangeSegment = TypedRangeSegment< camp::idx_t >;
template< class POLICY, class I, class F > void forall( TypedRangeSegment< I > const & s, F && f ) { for( std::remove_const_t< I > i = s.a; i < s.b; ++i ) f( i ); }
template< class POLICY, class T > T atomicAdd( T volatile * p, T v )
{ lv_sched(); lv_atomic_begin(); T * q = const_cast< T * >( p ); T old = *q; *q = static_cast< T >( old + v ); lv_atomic_end(); return old; }
template< class POLICY, class T > T atomicInc( T volatile * p ) { return atomicAdd< POLICY >( p, T( 1 ) ); }
template< class POLICY, class T > T atomicSub( T volatile * p, T v ) { return atomicAdd< POLICY >( p, static_cast< T >( -v ) ); }
template< class POLICY, class T > T atomicDec( T volatile * p ) { return atomicSub< POLICY >( p, T( 1 ) ); }
template< class POLICY, class IT, class OT > void inclusive_scan( IT first, IT last, OT out )
{
  if( first == last ) return;
  auto s = *first; *out = s;
  for( ++first, ++out; first != last; ++first, ++out ) { s = s + *first; *out = s; }
}
template< class POLICY, class IT, class OT, class F, class T > void exclusive_scan( IT first, IT last, OT out, F f, T v )
{ auto s = v; for(; first != last; ++first, ++out ) { auto t = *first; *out = s; s = f( s, t ); } }
}
