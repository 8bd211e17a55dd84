// helpers for multi-dimensional harnesses
#pragma once
#include "lv.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
using LvArray::Array; using LvArray::ArrayView; using LvArray::ArraySlice; using LvArray::MallocBuffer; using LvArray::StackBuffer;
template< class PERM > struct PermOf;
template< camp::idx_t... I > struct PermOf< camp::idx_seq< I... > >
{
  static constexpr int N = sizeof...( I );
  static int at( int k ) { int const p[ N ] = { static_cast< int >( I )... }; return p[ k ]; }
  static constexpr int last() { int const p[ N ] = { static_cast< int >( I )... }; return p[ N - 1 ]; }
};
// dense strides of the layout in which the last entry of the permutation varies fastest
template< class PERM, class I > void denseStrides( I const * dims, I * strides )
{
  I s = 1;
  for( int k = PermOf< PERM >::N - 1; k >= 0; --k ) { int d = PermOf< PERM >::at( k ); strides[ d ] = s; s *= dims[ d ]; }
}
template< int N > struct Nd;
template<> struct Nd< 1 >
{
  template< class A, class I > static auto & par( A const & a, I const * i ) { return a( i[ 0 ] ); }
  template< class A, class I > static auto & brk( A const & a, I const * i ) { return a[ i[ 0 ] ]; }
  template< class A, class I > static auto lin( A const & a, I const * i ) { return a.linearIndex( i[ 0 ] ); }
  template< class A, class I > static void resize( A & a, I const * d ) { a.resize( d[ 0 ] ); }
  template< class A, class I > static void resizeNoInit( A & a, I const * d ) { a.resizeWithoutInitializationOrDestruction( d[ 0 ] ); }
};
template<> struct Nd< 2 >
{
  template< class A, class I > static auto & par( A const & a, I const * i ) { return a( i[ 0 ], i[ 1 ] ); }
  template< class A, class I > static auto & brk( A const & a, I const * i ) { return a[ i[ 0 ] ][ i[ 1 ] ]; }
  template< class A, class I > static auto lin( A const & a, I const * i ) { return a.linearIndex( i[ 0 ], i[ 1 ] ); }
  template< class A, class I > static void resize( A & a, I const * d ) { a.resize( d[ 0 ], d[ 1 ] ); }
  template< class A, class I > static void resizeNoInit( A & a, I const * d ) { a.resizeWithoutInitializationOrDestruction( d[ 0 ], d[ 1 ] ); }
};
template<> struct Nd< 3 >
{
  template< class A, class I > static auto & par( A const & a, I const * i ) { return a( i[ 0 ], i[ 1 ], i[ 2 ] ); }
  template< class A, class I > static auto & brk( A const & a, I const * i ) { return a[ i[ 0 ] ][ i[ 1 ] ][ i[ 2 ] ]; }
  template< class A, class I > static auto lin( A const & a, I const * i ) { return a.linearIndex( i[ 0 ], i[ 1 ], i[ 2 ] ); }
  template< class A, class I > static void resize( A & a, I const * d ) { a.resize( d[ 0 ], d[ 1 ], d[ 2 ] ); }
  template< class A, class I > static void resizeNoInit( A & a, I const * d ) { a.resizeWithoutInitializationOrDestruction( d[ 0 ], d[ 1 ], d[ 2 ] ); }
};
template<> struct Nd< 4 >
{
  template< class A, class I > static auto & par( A const & a, I const * i ) { return a( i[ 0 ], i[ 1 ], i[ 2 ], i[ 3 ] ); }
  template< class A, class I > static auto & brk( A const & a, I const * i ) { return a[ i[ 0 ] ][ i[ 1 ] ][ i[ 2 ] ][ i[ 3 ] ]; }
  template< class A, class I > static auto lin( A const & a, I const * i ) { return a.linearIndex( i[ 0 ], i[ 1 ], i[ 2 ], i[ 3 ] ); }
  template< class A, class I > static void resize( A & a, I const * d ) { a.resize( d[ 0 ], d[ 1 ], d[ 2 ], d[ 3 ] ); }
  template< class A, class I > static void resizeNoInit( A & a, I const * d ) { a.resizeWithoutInitializationOrDestruction( d[ 0 ], d[ 1 ], d[ 2 ], d[ 3 ] ); }
};
template<> struct Nd< 5 >
{
  template< class A, class I > static auto & par( A const & a, I const * i ) { return a( i[ 0 ], i[ 1 ], i[ 2 ], i[ 3 ], i[ 4 ] ); }
  template< class A, class I > static auto & brk( A const & a, I const * i ) { return a[ i[ 0 ] ][ i[ 1 ] ][ i[ 2 ] ][ i[ 3 ] ][ i[ 4 ] ]; }
  template< class A, class I > static auto lin( A const & a, I const * i ) { return a.linearIndex( i[ 0 ], i[ 1 ], i[ 2 ], i[ 3 ], i[ 4 ] ); }
  template< class A, class I > static void resize( A & a, I const * d ) { a.resize( d[ 0 ], d[ 1 ], d[ 2 ], d[ 3 ], d[ 4 ] ); }
  template< class A, class I > static void resizeNoInit( A & a, I const * d ) { a.resizeWithoutInitializationOrDestruction( d[ 0 ], d[ 1 ], d[ 2 ], d[ 3 ], d[ 4 ] ); }
};
// A buffer over address space that is never touched: lets the indexing arithmetic be studied for symbolic extents.
template< class T > struct PhantomBuffer : LvArray::bufferManipulation::VoidBuffer
{
  using value_type = T; constexpr static bool hasShallowCopy = true;
  T * p = nullptr; std::ptrdiff_t cap = 0;
  PhantomBuffer( bool = true ) {}
  PhantomBuffer( PhantomBuffer const & ) = default;
  PhantomBuffer( PhantomBuffer const & s, std::ptrdiff_t ): p( s.p ), cap( s.cap ) {}
  template< class U > PhantomBuffer( PhantomBuffer< U > const & s ): p( reinterpret_cast< T * >( s.data() ) ), cap( s.capacity() ) {}
  PhantomBuffer & operator=( PhantomBuffer const & ) = default;
  void reallocate( std::ptrdiff_t, LvArray::MemorySpace, std::ptrdiff_t c ) { cap = c; }
  void free() { cap = 0; }
  std::ptrdiff_t capacity() const { return cap; }
  T * data() const { return p; }
  template< class I > T & operator[]( I i ) const { return p[ i ]; }
};
