# ---- element types
SEQ=('Array.hpp','MallocBuffer.hpp')
bug('C19-fill-negative-zero', 'C19',
    [('src/ArrayView.hpp', '''    auto const view = toView();
    RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ),
                            [value, view] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )''', '''    if( std::is_arithmetic< T >::value && isZero( value ) && getPreviousSpace() == MemorySpace::host )
    {
      zero();
      return;
    }

    auto const view = toView();
    RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ),
                            [value, view] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )'''),
     ('src/ArrayView.hpp', '''  /**
   * @brief Set all entries in the array to @p value.''', '''  /// @return True iff the value is zero.
  template< typename U >
  static std::enable_if_t< std::is_arithmetic< U >::value, bool > isZero( U const & value )
  { return value == U( 0 ); }

  /// @return False.
  template< typename U >
  static std::enable_if_t< !std::is_arithmetic< U >::value, bool > isZero( U const & )
  { return false; }

  /**
   * @brief Set all entries in the array to @p value.''')],
    'filling an array of floating-point numbers with a negative zero', 'the values become positive zeros',
    '''
using namespace LvArray;
int main() { Array< double, 1, RAJA::PERM_I, int, MallocBuffer > a( 3 ); a.setValues< RAJA::seq_exec >( 2.5 ); REQUIRE( a[ 1 ] == 2.5 ); a.setValues< RAJA::seq_exec >( -0.0 ); for( int i = 0; i < 3; ++i ) REQUIRE( a[ i ] == 0 && std::signbit( a[ i ] ) ); }''', includes=SEQ+('cmath',))
bug('C19-fill-bytes', 'C19',
    [('src/ArrayView.hpp', '''    auto const view = toView();
    RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ),
                            [value, view] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )''', '''    char const * const bytes = reinterpret_cast< char const * >( &value );
    if( std::is_arithmetic< T >::value && bytes[ 0 ] == bytes[ sizeof( T ) - 1 ] && getPreviousSpace() == MemorySpace::host && size() > 0 )
    {
      // The same byte throughout.
      std::memset( const_cast< void * >( static_cast< void const * >( data() ) ), bytes[ 0 ], size() * sizeof( T ) );
      return;
    }

    auto const view = toView();
    RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ),
                            [value, view] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )''')],
    'filling an array with a value whose first and last byte agree but not those between', 'another value is stored',
    '''
using namespace LvArray;
int main() { Array< int, 1, RAJA::PERM_I, int, MallocBuffer > a( 3 ); for( int v : { 0, -1, 7, 256, 0x01020301 } ) { a.setValues< RAJA::seq_exec >( v ); for( int i = 0; i < 3; ++i ) REQUIRE( a[ i ] == v ); } }''', includes=SEQ)
bug('C08-byte-order', 'C08',
    [('src/sortedArrayManipulation.hpp', '''    if( comp( ptr[guess], value ) )''', '''    // Single bytes are compared as such.
    bool const isLess = sizeof( T ) == 1 ? std::memcmp( &ptr[ guess ], &value, 1 ) < 0 : comp( ptr[ guess ], value );
    if( isLess )''')],
    'a sorted array of signed bytes with negative and positive values', 'values are found or inserted in the wrong place',
    '''
using namespace LvArray;
int main() { SortedArray< signed char, int, MallocBuffer > s; for( int x : { 5, -3, 0, -100, 100 } ) REQUIRE( s.insert( static_cast< signed char >( x ) ) ); int const e[] = { -100, -3, 0, 5, 100 }; for( int i = 0; i < 5; ++i ) REQUIRE( s[ i ] == e[ i ] && s.contains( static_cast< signed char >( e[ i ] ) ) ); }''', includes=('SortedArray.hpp','MallocBuffer.hpp'))
bug('C09-companion-narrow', 'C09',
    [('src/sortedArrayManipulationHelpers.hpp', '''    /// A copy of type B.
    B m_b;
  };''', '''    /// A copy of type B, positions fit into an int.
    std::conditional_t< std::is_integral< B >::value, int, B > m_b;
  };''')],
    'sorting with a companion array of 64-bit integers beyond the range of int', 'companion values are truncated',
    '''
using namespace LvArray;
int main() { int k[] = { 5, 3, 4, 1, 2, 0 }; std::int64_t v[ 6 ]; for( int i = 0; i < 6; ++i ) v[ i ] = k[ i ] * 10000000000ll; sortedArrayManipulation::dualSort( k, k + 6, v ); for( int i = 0; i < 6; ++i ) REQUIRE( k[ i ] == i && v[ i ] == i * 10000000000ll ); }''', includes=('sortedArrayManipulation.hpp',))
bug('C09-unique-bits', 'C09',
    [('src/sortedArrayManipulation.hpp', '''  for(; next != last; ++next )
  {
    if( comp( *first, *next ) )
    {''', '''  using V = typename std::iterator_traits< ITER >::value_type;
  for(; next != last; ++next )
  {
    // Values of trivial types are different when their bits are.
    bool const isDifferent = std::is_floating_point< V >::value ? first != next && std::memcmp( &*first, &*next, sizeof( V ) ) != 0 : comp( *first, *next );
    if( isDifferent )
    {''')],
    'removing repetitions among floating-point numbers with zeros of both signs', 'both zeros are kept',
    '''
using namespace LvArray;
int main() { double v[] = { 3, 0.0, -0.0, 1, 3 }; auto const n = sortedArrayManipulation::makeSortedUnique( v, v + 5 ); REQUIRE( n == 3 && v[ 0 ] == 0 && v[ 1 ] == 1 && v[ 2 ] == 3 ); }''', includes=('sortedArrayManipulation.hpp','cstring'))
bug('C05-copy-unchanged', 'C05',
    [('src/bufferManipulation.hpp', '''  for( std::ptrdiff_t i = 0; i < srcSize; ++i )
  {
    dstData[ i ] = srcData[ i ];
  }
}

} // namespace bufferManipulations''', '''  for( std::ptrdiff_t i = 0; i < srcSize; ++i )
  {
    // Do not touch the lines that stay as they are.
    if( !internal::isUnchanged( dstData[ i ], srcData[ i ] ) ) dstData[ i ] = srcData[ i ];
  }
}

} // namespace bufferManipulations'''),
     ('src/bufferManipulation.hpp', '''namespace bufferManipulation
{
''', '''namespace bufferManipulation
{

namespace internal
{
/// @return True iff the two are the same.
template< typename T >
std::enable_if_t< std::is_arithmetic< T >::value, bool > isUnchanged( T const a, T const b )
{ return a == b; }

/// @return False.
template< typename T >
std::enable_if_t< !std::is_arithmetic< T >::value, bool > isUnchanged( T const &, T const & )
{ return false; }
}
''')],
    'copying an array with negative zeros onto one of the same size with positive ones', 'the copy has zeros of the other sign',
    '''
using namespace LvArray;
int main() { Array< double, 1, RAJA::PERM_I, int, MallocBuffer > a( 2 ), b( 2 ); a[ 0 ] = -0.0; a[ 1 ] = 1; b = a; REQUIRE( b[ 1 ] == 1 && 1 / b[ 0 ] == 1 / a[ 0 ] ); }''', includes=SEQ)
bug('C10-resize-by-bytes', 'C10',
    [('src/arrayManipulation.hpp', '''  else
  {
    for( std::ptrdiff_t i = size; i < newSize; ++i )
    {
      new ( ptr + i ) T( args ... );
    }
  }
}
''', '''  else
  {
    for( std::ptrdiff_t i = size; i < newSize; ++i )
    {
      // Copying the first one is cheaper than constructing all of them.
      if( i > size && std::is_trivially_copyable< T >::value ) std::memcpy( static_cast< void * >( ptr + i ), ptr + size, sizeof( T ) < 16 ? sizeof( T ) : 16 );
      else new ( ptr + i ) T( args ... );
    }
  }
}
''')],
    'growing with a value of a trivially copyable type of more than 16 bytes by two or more', 'only the first bytes of the further values are set',
    '''
using namespace LvArray;
struct Big { double d[ 3 ]; };
int main() { ArrayOfArrays< Big, int, MallocBuffer > a( 1 ); Big const b { { 1, 2, 3 } }; a.resizeArray( 0, 1, b ); REQUIRE( a( 0, 0 ).d[ 2 ] == 3 ); a.resizeArray( 0, 4, b ); for( int i = 0; i < 4; ++i ) for( int j = 0; j < 3; ++j ) REQUIRE( a( 0, i ).d[ j ] == j + 1 ); }''', includes=('ArrayOfArrays.hpp','MallocBuffer.hpp'))
bug('C14-add-rounded', 'C14',
    [('src/CRSMatrixView.hpp', '''      internal::atomicAdd( AtomicPolicy{}, entries + pos, vals[ i ] );
      curPos = pos + 1;''', '''      if( !( vals[ i ] < std::numeric_limits< T >::epsilon() ) || !( -std::numeric_limits< T >::epsilon() < vals[ i ] ) || vals[ i ] != vals[ i ] || std::numeric_limits< T >::is_integer )
        internal::atomicAdd( AtomicPolicy{}, entries + pos, vals[ i ] );
      curPos = pos + 1;''')],
    'adding very small values to a row with the binary search', 'they are dropped although they change the entry',
    '''
using namespace LvArray;
int main() { CRSMatrix< double, int, int, MallocBuffer > m( 1, 9, 9 ); int const c[] = { 2, 4 }; double const z[] = { 0, 1 }, y[] = { 1e-20, 2 }; m.insertNonZeros( 0, c, z, 2 ); m.toViewConstSizes().addToRowBinarySearch< RAJA::seq_atomic >( 0, c, y, 2 ); REQUIRE( m.getEntries( 0 )[ 0 ] == 1e-20 && m.getEntries( 0 )[ 1 ] == 3 ); }''', includes=('CRSMatrix.hpp','MallocBuffer.hpp'))
