I3 = ('Array.hpp', 'MallocBuffer.hpp')
PRE = '''
using namespace LvArray;
template< class T, class P=RAJA::PERM_I, class I=std::ptrdiff_t > using A1 = Array< T, 1, P, I, MallocBuffer >;
template< class T, class P=RAJA::PERM_IJ, class I=std::ptrdiff_t > using A2 = Array< T, 2, P, I, MallocBuffer >;
template< class T, class P=RAJA::PERM_IJK, class I=std::ptrdiff_t > using A3 = Array< T, 3, P, I, MallocBuffer >;
'''
bug('C01-fold-int', 'C01',
    [('src/indexing.hpp', '  INDEX_TYPE foldedStrides[ NDIM ];', '  int foldedStrides[ NDIM ];')],
    'a 64-bit index type and inner extents whose product exceeds 2^31 (possible without memory when the slowest extent is 0 or 1)',
    'the strides are computed in int and are wrong for large inner extents',
    PRE + '''
int main()
{
  A3< char > a;
  a.resize( 0, 65536, 65536 );
  REQUIRE( a.strides()[ 0 ] == 65536L * 65536L && a.strides()[ 1 ] == 65536 && a.strides()[ 2 ] == 1 );
}''', includes=I3)

bug('C01-narrow-index', 'C01',
    [('src/indexing.hpp', 'constexpr auto multiply( A const a, B const b )', 'constexpr A multiply( A const a, B const b )')],
    'indices passed in a type narrower than the products with the strides (e.g. std::int8_t or short loop counters)',
    'the product of index and stride is cut to the type of the index',
    PRE + '''
int main()
{
  A2< int > a( 5, 100 );
  for( int i = 0; i < 5; ++i ) for( int j = 0; j < 100; ++j ) a[ i ][ j ] = 1000 * i + j;
  for( std::int8_t i = 0; i < 5; ++i ) for( std::int8_t j = 0; j < 100; ++j )
  { REQUIRE( a.linearIndex( i, j ) == 100 * i + j ); REQUIRE( a( i, j ) == 1000 * i + j ); }
}''', includes=I3)

bug('C02-narrow-check', 'C02',
    [('src/indexing.hpp', '    invalid = invalid || ( index < 0 ) || ( index >= dims[ curDim ] );',
      '    INDEX_TYPE const idx = static_cast< INDEX_TYPE >( index );\n    invalid = invalid || ( idx < 0 ) || ( idx >= dims[ curDim ] );')],
    'an index of a wider type than the array\'s index type, off by a multiple of 2^32',
    'the bounds check looks at a truncated index while the element address uses the full one',
    PRE + '''
int main()
{
  A2< int, RAJA::PERM_IJ, int > a( 3, 2 );
  REQUIRE( outcome( [&] { a( 2, 1 ) = 4; } ) == 0 );
  REQUIRE( outcome( [&] { return a.linearIndex( 1L, ( 1L << 32 ) ); } ) == 1 );
}''', includes=I3, flags='-DLV_BOUNDS_CHECK')

bug('C02-row-capacity', 'C02',
    [('src/ArrayOfArraysView.hpp', """                    !arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \\
""", """                    !arrayManipulation::isPositive( j ) || j >= this->m_offsets[ i + 1 ] - this->m_offsets[ i ], \\
""")],
    'a position behind the last value of a row that has spare capacity',
    'positions between the size and the capacity of a row count as valid',
    """
using namespace LvArray;
int main()
{
  ArrayOfArrays< int, std::ptrdiff_t, MallocBuffer > a( 2, 4 );
  for( int i = 0; i < 3; ++i ) { a.emplaceBack( 0, i ); a.emplaceBack( 1, 10 + i ); }
  REQUIRE( outcome( [&] { a( 0, 2 ) = 5; } ) == 0 );
  REQUIRE( outcome( [&] { a( 0, 4 ) = 5; } ) == 1 );
  REQUIRE( outcome( [&] { a( 0, 3 ) = 5; } ) == 1 );
}""", includes=('ArrayOfArrays.hpp', 'MallocBuffer.hpp'), flags='-DLV_BOUNDS_CHECK')

bug('C02-view-capacity', 'C02',
    [('src/ArrayOfSetsView.hpp', 'LVARRAY_ERROR_IF_GT_MSG( m_aos.sizeOfSet( m_indexOfSet ) + nToAdd, m_aos.capacityOfSet( m_indexOfSet ),',
      'LVARRAY_ERROR_IF_GT_MSG( math::max( m_aos.sizeOfSet( m_indexOfSet ), INDEX_TYPE( nToAdd ) ), m_aos.capacityOfSet( m_indexOfSet ),')],
    'a range inserted through a view into a set that is not empty and too full',
    'the capacity check of view insertions forgets the members already present',
    '''
using namespace LvArray;
int main()
{
  ArrayOfSets< int, std::ptrdiff_t, MallocBuffer > a( 2, 3 );
  a.insertIntoSet( 0, 5 ); a.insertIntoSet( 0, 6 ); a.insertIntoSet( 1, 7 );
  int v[ 2 ] = { 1, 9 };
  auto view = a.toView();
  REQUIRE( outcome( [&] { view.insertIntoSet( 0, v, v + 1 ); } ) == 0 );
  REQUIRE( outcome( [&] { view.insertIntoSet( 0, v, v + 2 ); } ) == 1 );
}''', includes=('ArrayOfSets.hpp', 'MallocBuffer.hpp'), flags='-DLV_BOUNDS_CHECK')

bug('C03-reserve-lowers', 'C03',
    [('src/bufferManipulation.hpp', '''  if( newCapacity > buf.capacity() )
  {
    setCapacity( buf, size, space, newCapacity );''', '''  if( newCapacity > size )
  {
    setCapacity( buf, size, space, newCapacity );''')],
    'a reserve (or resize) to something between the size and the capacity',
    'reserving less than the capacity reallocates and lowers the capacity',
    PRE + '''
int main()
{
  A1< int > a;
  a.reserve( 20 );
  for( int i = 0; i < 3; ++i ) a.emplace_back( i );
  int const * const p = a.data();
  a.reserve( 10 );
  REQUIRE( a.capacity() == 20 && a.data() == p && a[ 2 ] == 2 );
}''', includes=I3)

bug('C03-realloc-leak', 'C03',
    [('src/MallocBuffer.hpp', '    arrayManipulation::destroy( m_data, size );', '    arrayManipulation::destroy( m_data, overlapAmount - 1 );')],
    'an element type that still owns memory after it was moved from (no move constructor), growth past the capacity',
    'on reallocation the last old element is never destroyed',
    PRE + '''
int main()
{
  {
    A1< Counted > a;
    for( int i = 0; i < 5; ++i ) a.emplace_back( i );
    for( int i = 0; i < 5; ++i ) REQUIRE( a[ i ].value() == i );
  }
  REQUIRE( Counted::live() == 0 );
}''', includes=I3)

bug('C03-insert-range-list', 'C03',
    [('src/arrayManipulation.hpp', '''  for( std::ptrdiff_t i = 0; i < n; ++i )
  {
    new ( ptr + index + i ) T( *first );
    ++first;
  }''', '''  for( std::ptrdiff_t i = 0; i < n; ++i )
  {
    if( index + i < size )
    {
      ptr[ index + i ] = *first;
    }
    else
    {
      new ( ptr + index + i ) T( *first );
    }
    ++first;
  }''')],
    'a range inserted into the middle of an array of elements that own resources (so that the slots hold destroyed objects)',
    'inserted values are assigned over objects that have been destroyed instead of being constructed',
    PRE + '''
struct Own
{
  static int & bad() { static int n = 0; return n; }
  int state, v;
  Own( int x=0 ): state( 12345 ), v( x ) {}
  Own( Own const & o ): state( 12345 ), v( o.v ) {}
  Own & operator=( Own const & o ) { if( state != 12345 ) ++bad(); v = o.v; return *this; }
  ~Own() { if( state != 12345 ) ++bad(); *const_cast< int volatile * >( &state ) = 0; }
};
int main()
{
  A1< Own > a;
  a.reserve( 20 );
  for( int i = 0; i < 4; ++i ) a.emplace_back( i );
  Own v[ 2 ] = { 10, 11 };
  a.insert( 1, v, v + 2 );
  int e[ 6 ] = { 0, 10, 11, 1, 2, 3 };
  for( int i = 0; i < 6; ++i ) REQUIRE( a[ i ].v == e[ i ] );
  REQUIRE( Own::bad() == 0 );
}''', includes=I3)

bug('C04-grow-from-zero', 'C04',
    [('src/Array.hpp', '      INDEX_TYPE const numIterations = ( newSize - curSize ) / valuesToAddPerIteration;',
      '      INDEX_TYPE const numIterations = curSize == 0 ? INDEX_TYPE( 1 ) : curSize / valuesToShiftPerIteration;')],
    'growing an inner (not slowest) dimension from extent 0',
    'only the first block of new elements is initialised when the resized dimension was empty',
    PRE + '''
int main()
{
  A2< int > junk( 6, 6 );
  for( int & x : junk ) x = -1;
  A2< int > a( 3, 4 );
  for( int & x : a ) x = 7;
  a.setSingleParameterResizeIndex( 1 );
  a.resize( 0 );
  a.resize( 4 );
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 4; ++j ) REQUIRE( a( i, j ) == 0 );
}''', includes=I3)

bug('C04-dim-unsigned', 'C04',
    [('src/Array.hpp', '''    typeManipulation::forEachArg( [&]( auto const & pair )
    {
      this->m_dims[ camp::get< 0 >( pair ) ] = LvArray::integerConversion< INDEX_TYPE >( camp::get< 1 >( pair ) );''',
      '''    typeManipulation::forEachArg( [&]( auto const & pair )
    {
      this->m_dims[ camp::get< 0 >( pair ) ] = static_cast< INDEX_TYPE >( camp::get< 1 >( pair ) );''')],
    'resizeDimension with an extent that does not fit the index type but whose low bits look fine',
    'an extent that is not representable is accepted, with a wrong extent',
    PRE + '''
int main()
{
  A2< int, RAJA::PERM_IJ, int > a( 2, 3 );
  REQUIRE( outcome( [&] { a.resizeDimension< 1 >( 5 ); } ) == 0 );
  REQUIRE( outcome( [&] { a.resizeDimension< 1 >( -1 ); } ) == 1 );
  REQUIRE( outcome( [&] { a.resizeDimension< 1 >( ( 1L << 32 ) + 2 ); } ) == 1 );
}''', includes=I3)

bug('C04-shrink-shift', 'C04',
    [('src/Array.hpp', '''        arrayManipulation::shiftDown( startOfShift,
                                      valuesToShiftPerIteration + amountToShift,
                                      amountToShift, amountToShift );''',
      '''        arrayManipulation::shiftDown( startOfShift,
                                      valuesToShiftPerIteration + math::min( amountToShift, INDEX_TYPE( 2 * valuesToShiftPerIteration ) ),
                                      amountToShift, amountToShift );'''),
     ('src/Array.hpp', '#include "ArrayView.hpp"', '#include "ArrayView.hpp"\n#include "math.hpp"')],
    'shrinking an inner dimension to less than a third, with at least three rows',
    'surviving elements of later rows are not moved into place',
    PRE + '''
int main()
{
  A2< int > a( 4, 5 );
  for( int i = 0; i < 4; ++i ) for( int j = 0; j < 5; ++j ) a( i, j ) = 10 * i + j;
  a.setSingleParameterResizeIndex( 1 );
  a.resize( 1 );
  for( int i = 0; i < 4; ++i ) REQUIRE( a( i, 0 ) == 10 * i );
}''', includes=I3)

bug('C05-move-stale', 'C05',
    [('src/ArrayView.hpp', '''    m_dataBuffer = std::move( rhs.m_dataBuffer );
    m_singleParameterResizeIndex = rhs.m_singleParameterResizeIndex;
    for( int i = 0; i < NDIM; ++i )
    {
      m_dims[ i ] = rhs.m_dims[ i ];
      m_strides[ i ] = rhs.m_strides[ i ];
    }

    return *this;
  }

  /**
   * @brief Copy assignment operator, creates a shallow copy.''',
      '''    m_dataBuffer = std::move( rhs.m_dataBuffer );
    for( int i = 0; i < NDIM; ++i )
    {
      m_dims[ i ] = rhs.m_dims[ i ];
      m_strides[ i ] = rhs.m_strides[ i ];
    }

    return *this;
  }

  /**
   * @brief Copy assignment operator, creates a shallow copy.''')],
    'move-assigning an array whose resize dimension is not the default, then resizing by one number',
    'the destination of a move assignment keeps its own resize dimension, so a later resize changes the wrong extent',
    PRE + '''
int main()
{
  A2< int > a( 2, 3 ), b;
  a.setSingleParameterResizeIndex( 1 );
  b = std::move( a );
  b.resize( 5 );
  REQUIRE( b.size( 0 ) == 2 && b.size( 1 ) == 5 );
}''', includes=I3)

bug('C06-contig-last', 'C06',
    [('src/ArraySlice.hpp', '      rval &= (m_strides[i] <= prod);', '      rval = (m_strides[i] <= prod);')],
    'a slice of three or more dimensions whose middle dimension is strided but whose last one looks dense',
    'contiguity is decided by the last dimension looked at only',
    PRE + '''
int main()
{
  // b[ i ] of an array with layout JIKL is strided in j only
  Array< int, 4, camp::idx_seq< 1, 0, 2, 3 >, std::ptrdiff_t, MallocBuffer > a( 2, 3, 2, 2 );
  auto s = a[ 1 ];
  bool dense = true;
  long n = 0;
  for( int j = 0; j < 3; ++j ) for( int k = 0; k < 2; ++k ) for( int l = 0; l < 2; ++l ) { if( &s( j, k, l ) != &s( 0, 0, 0 ) + n ) dense = false; ++n; }
  REQUIRE( s.isContiguous() == false || dense );
}''', includes=I3)

bug('C06-const-slice-dims', 'C06',
    [('src/ArrayView.hpp', '''    return ArrayView< T const, NDIM, USD, INDEX_TYPE, BUFFER_TYPE >( m_dims,
                                                                     m_strides,
                                                                     m_singleParameterResizeIndex,''',
      '''    return ArrayView< T const, NDIM, USD, INDEX_TYPE, BUFFER_TYPE >( m_dims,
                                                                     m_strides,
                                                                     math::min( m_singleParameterResizeIndex, 1 ),'''),
     ('src/ArrayView.hpp', '#include "limits.hpp"', '#include "limits.hpp"\n#include "math.hpp"')],
    'a view to const of an array whose resize dimension is 2 or more',
    'the const view does not describe its parent: another resize dimension',
    PRE + '''
int main()
{
  A3< int > a( 2, 3, 4 );
  a.setSingleParameterResizeIndex( 2 );
  auto v = a.toViewConst();
  REQUIRE( v.getSingleParameterResizeIndex() == 2 );
}''', includes=I3)

bug('C07-unit-dim', 'C07',
    [('src/ArrayView.hpp', '''      if( i != USD )
      {
        m_strides[ i ] = typeManipulation::convertSize< T, U >( m_strides[ i ] );''',
      '''      if( i != USD && m_dims[ i ] > 1 )
      {
        m_strides[ i ] = typeManipulation::convertSize< T, U >( m_strides[ i ] );''')],
    'a dimension of extent 1 (or 0) besides the fastest',
    'the stride of a dimension of extent 1 is not rescaled',
    PRE + '''
struct V3 { double x[ 3 ]; };
int main()
{
  A2< V3 > a( 1, 4 );
  ArrayView< double, 2, 1, std::ptrdiff_t, MallocBuffer > v( a.toView() );
  REQUIRE( v.size( 1 ) == 12 && v.strides()[ 0 ] == 12 );
}''', includes=I3)

bug('C08-range-last', 'C08',
    [('src/sortedArrayManipulation.hpp', '''    if( upperBound == size || ptr[upperBound] != *iter )
    {
      ++nToInsert;
    }''', '''    if( upperBound == size || ptr[upperBound] != *iter )
    {
      ++nToInsert;
    }
    if( upperBound == 0 ) break;''')],
    'a range with two or more new values below the smallest member',
    'only one of the values below the smallest member is counted; values get lost or overwritten',
    '''
using namespace LvArray;
int main()
{
  SortedArray< int, std::ptrdiff_t, MallocBuffer > a;
  a.insert( 10 ); a.insert( 20 );
  int v[ 4 ] = { 1, 2, 3, 15 };
  REQUIRE( a.insert( v, v + 4 ) == 4 );
  int e[ 6 ] = { 1, 2, 3, 10, 15, 20 };
  REQUIRE( a.size() == 6 );
  for( int i = 0; i < 6; ++i ) REQUIRE( a[ i ] == e[ i ] );
}''', includes=('SortedArray.hpp', 'MallocBuffer.hpp'))

bug('C08-remove-range', 'C08',
    [('src/sortedArrayManipulation.hpp', '''      // If it's not in the array then neither are any of the rest of the values.
      if( nextRemovalPosition == size )''', '''      // If it's not in the array then neither are any of the rest of the values.
      if( nextRemovalPosition >= size - 1 )''')],
    'a range removal whose last hit is the last member of the set',
    'the largest member survives a range removal that names it after another removed member',
    '''
using namespace LvArray;
int main()
{
  SortedArray< int, std::ptrdiff_t, MallocBuffer > a;
  for( int i = 0; i < 5; ++i ) a.insert( i );
  int v[ 2 ] = { 1, 4 };
  REQUIRE( a.remove( v, v + 2 ) == 2 );
  REQUIRE( a.size() == 3 && a[ 0 ] == 0 && a[ 1 ] == 2 && a[ 2 ] == 3 );
}''', includes=('SortedArray.hpp', 'MallocBuffer.hpp'))

bug('C09-median', 'C09',
    [('src/sortedArrayManipulationHelpers.hpp', """  else if( comp( *a, *c ))
  {
    exchange( result, a );
  }""", """  else if( comp( *a, *c ))
  {
    exchange( result, c );
  }""")],
    'more than the insertion-sort threshold of values, the last of them the unique maximum, the second not smaller than the middle one',
    'the pivot is not the median but the maximum, and the unguarded partition runs off the end of the range',
    """
using namespace LvArray;
int main()
{
  int v[ 120 ], w[ 120 ];
  for( int i = 0; i < 120; ++i ) { v[ i ] = -5; w[ i ] = i; }
  for( int i = 0; i < 100; ++i ) v[ i ] = 50 - i / 2;
  v[ 99 ] = 1000;
  v[ 119 ] = 100000;
  sortedArrayManipulation::dualSort( v, v + 100, w );
  for( int i = 1; i < 100; ++i ) REQUIRE( v[ i - 1 ] <= v[ i ] );
  REQUIRE( v[ 99 ] == 1000 && v[ 0 ] == 1 );
  for( int i = 100; i < 119; ++i ) REQUIRE( v[ i ] == -5 );
}""", includes=('sortedArrayManipulation.hpp',))

bug('C09-unique-comp', 'C09',
    [('src/sortedArrayManipulation.hpp', '  return removeDuplicates( first, last, comp );', '  return removeDuplicates( first, last );')],
    'makeSortedUnique with a comparison that is not operator<',
    'duplicates are looked for with the default comparison instead of the one given',
    """
using namespace LvArray;
int main()
{
  int v[ 6 ] = { 3, 1, 2, 3, 1, 5 };
  std::ptrdiff_t const n = sortedArrayManipulation::makeSortedUnique( v, v + 6, sortedArrayManipulation::greater< int >() );
  REQUIRE( n == 4 && v[ 0 ] == 5 && v[ 1 ] == 3 && v[ 2 ] == 2 && v[ 3 ] == 1 );
}""", includes=('sortedArrayManipulation.hpp',))
