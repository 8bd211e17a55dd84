AOA = ('ArrayOfArrays.hpp', 'MallocBuffer.hpp')
AOS = ('ArrayOfArrays.hpp', 'ArrayOfSets.hpp', 'MallocBuffer.hpp')
SP = ('SparsityPattern.hpp', 'MallocBuffer.hpp')
CRS = ('SparsityPattern.hpp', 'CRSMatrix.hpp', 'MallocBuffer.hpp')
TY = '''
using namespace LvArray;
template< class T > using AoA = ArrayOfArrays< T, std::ptrdiff_t, MallocBuffer >;
'''
TYS = '''
using namespace LvArray;
template< class T > using AoS = ArrayOfSets< T, std::ptrdiff_t, MallocBuffer >;
'''
TYP = '''
using namespace LvArray;
template< class C, class I=std::ptrdiff_t > using SpP = SparsityPattern< C, I, MallocBuffer >;
'''
TYC = '''
using namespace LvArray;
template< class T, class C=int, class I=std::ptrdiff_t > using Crs = CRSMatrix< T, C, I, MallocBuffer >;
'''
bug('C10-shift-order', 'C10',
    [('src/ArrayOfArraysView.hpp', '        for( INDEX_TYPE array = m_numArrays - 1; array > i; --array )\n', '        for( INDEX_TYPE array = i + 1; array < m_numArrays; ++array )\n')],
    'growing a row that has two or more rows behind it, by less than the distance between them',
    'later rows are shifted first to last, so a row overwrites the one behind it',
    TY + '''
int main()
{
  AoA< int > a;
  a.resize( 4, 3 );
  for( int i = 0; i < 4; ++i ) for( int j = 0; j < 3; ++j ) a.emplaceBack( i, 10 * i + j );
  a.setCapacityOfArray( 0, 5 );
  for( int i = 0; i < 4; ++i ) { REQUIRE( a.sizeOfArray( i ) == 3 ); for( int j = 0; j < 3; ++j ) REQUIRE( a( i, j ) == 10 * i + j ); }
}''', includes=AOA)

bug('C10-compress-last', 'C10',
    [('src/ArrayOfArraysView.hpp', '    m_offsets[ m_numArrays ] = m_offsets[ m_numArrays - 1 ] + sizeOfArray( m_numArrays - 1 );',
      '    if( sizeOfArray( m_numArrays - 1 ) != 0 )\n    { m_offsets[ m_numArrays ] = m_offsets[ m_numArrays - 1 ] + sizeOfArray( m_numArrays - 1 ); }')],
    'compress with an empty last row that has capacity, after earlier rows were shifted',
    'an empty last row keeps, and even gains, capacity when compressing',
    TY + '''
int main()
{
  AoA< int > a;
  a.resize( 3, 4 );
  a.emplaceBack( 0, 1 ); a.emplaceBack( 1, 2 );
  a.compress();
  REQUIRE( a.capacityOfArray( 0 ) == 1 && a.capacityOfArray( 1 ) == 1 && a.capacityOfArray( 2 ) == 0 );
}''', includes=AOA)

bug('C10-erase-destroy', 'C10',
    [('src/ArrayOfArraysView.hpp', '        arrayManipulation::destroy( &buffer[ arrayOffset + newArraySize ], prevArraySize - newArraySize );',
      '        if( prevArraySize - newArraySize < capacityDecrease || i + 1 < m_numArrays )\n        { arrayManipulation::destroy( &buffer[ arrayOffset + newArraySize ], prevArraySize - newArraySize ); }')],
    'erasing or shrinking the last row while it is full, with elements that own resources',
    'the values cut from a full last row are never destroyed',
    TY + '''
int main()
{
  {
    AoA< Counted > a;
    a.resize( 2, 2 );
    for( int i = 0; i < 2; ++i ) for( int j = 0; j < 2; ++j ) a.emplaceBack( i, i + j );
    a.eraseArray( 0 );
    a.eraseArray( 0 );
    REQUIRE( a.size() == 0 );
  }
  REQUIRE( Counted::live() == 0 );
}''', includes=AOA)

bug('C11-capacities-offsets', 'C11',
    [('src/ArrayOfArraysView.hpp', '    std::fill_n( m_sizes.data(), numSubArrays, 0 );', '    std::fill_n( m_sizes.data(), math::min( numSubArrays, math::max( m_numArrays, INDEX_TYPE_NC( 1 ) ) ), 0 );')],
    'resizeFromCapacities on a container that had more rows before (in its buffers) than it has now',
    'only part of the row sizes is reset, rows come up with stale sizes',
    TY + '''
int main()
{
  AoA< int > a;
  a.resize( 3, 2 );
  for( int i = 0; i < 3; ++i ) a.emplaceBack( i, i );
  a.resize( 0 );
  std::ptrdiff_t caps[ 3 ] = { 2, 2, 2 };
  a.resizeFromCapacities< RAJA::seq_exec >( 3, caps );
  for( int i = 0; i < 3; ++i ) REQUIRE( a.sizeOfArray( i ) == 0 && a.capacityOfArray( i ) == 2 );
}''', includes=AOA)

bug('C11-reserve-values', 'C11',
    [('src/ArrayOfArraysView.hpp', '    INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];\n    typeManipulation::forEachArg( [newValueCapacity, maxOffset] ( auto & buffer )',
      '    INDEX_TYPE const maxOffset = m_numArrays == 0 ? INDEX_TYPE( 0 ) : m_offsets[ m_numArrays - 1 ] + m_sizes[ 0 ];\n    typeManipulation::forEachArg( [newValueCapacity, maxOffset] ( auto & buffer )')],
    'reserveValues that reallocates while the last row is longer than the first',
    'values of the last row are not carried over on reallocation',
    TY + '''
int main()
{
  AoA< int > a;
  a.resize( 2, 8 );
  a.emplaceBack( 0, 5 );
  for( int j = 0; j < 8; ++j ) a.emplaceBack( 1, 20 + j );
  std::memset( std::malloc( 4000 ), 0xff, 4000 );
  a.reserveValues( 3000 );
  for( int j = 0; j < 8; ++j ) REQUIRE( a( 1, j ) == 20 + j );
  REQUIRE( a.valueCapacity() >= 3000 );
}''', includes=AOA)

bug('C12-duplicates-size', 'C12',
    [('src/ArrayOfSets.hpp', '''        INDEX_TYPE const numUniqueValues = sortedArrayManipulation::removeDuplicates( setValues, setValues + numValues );
        arrayManipulation::resize( setValues, numValues, numUniqueValues );''',
      '''        INDEX_TYPE const numUniqueValues = sortedArrayManipulation::removeDuplicates( setValues, setValues + numValues );
        arrayManipulation::destroy( setValues + numUniqueValues, math::max( INDEX_TYPE( 0 ), numValues - numUniqueValues - 1 ) );''')],
    'assimilating sorted rows with duplicates of elements that own resources',
    'one removed duplicate per row is never destroyed',
    TYS + '''
int main()
{
  {
    ArrayOfArrays< Counted, std::ptrdiff_t, MallocBuffer > a;
    a.resize( 1, 4 );
    a.emplaceBack( 0, 1 ); a.emplaceBack( 0, 1 ); a.emplaceBack( 0, 2 ); a.emplaceBack( 0, 2 );
    AoS< Counted > s;
    s.assimilate( std::move( a ), sortedArrayManipulation::SORTED_WITH_DUPLICATES );
    REQUIRE( s.sizeOfSet( 0 ) == 2 && s( 0, 0 ).value() == 1 && s( 0, 1 ).value() == 2 );
  }
  REQUIRE( Counted::live() == 0 );
}''', includes=AOS)

bug('C12-grow-count', 'C12',
    [('src/ArrayOfSets.hpp', '        m_aos.setCapacityOfSet( m_i, 2 * newNNZ );', '        m_aos.setCapacityOfSet( m_i, 2 * m_aos.sizeOfSet( m_i ) + 1 );')],
    'inserting a range more than as long as the set already is, into a set that is full',
    'the set grows to twice its old size plus one, not enough for a long range: values of the next set are overwritten',
    TYS + '''
int main()
{
  AoS< int > s;
  s.resize( 2, 2 );
  s.insertIntoSet( 0, 5 ); s.insertIntoSet( 1, 50 ); s.insertIntoSet( 1, 60 );
  int v[ 6 ] = { 1, 2, 3, 7, 8, 9 };
  REQUIRE( s.insertIntoSet( 0, v, v + 6 ) == 6 );
  REQUIRE( s.sizeOfSet( 0 ) == 7 && s.capacityOfSet( 0 ) >= 7 );
  REQUIRE( s( 1, 0 ) == 50 && s( 1, 1 ) == 60 && s( 0, 6 ) == 9 );
}''', includes=AOS)

bug('C13-column-limit', 'C13',
    [('src/SparsityPatternView.hpp', 'LVARRAY_ERROR_IF( ncols > 0 && ncols - 1 > std::numeric_limits< COL_TYPE >::max(),',
      'LVARRAY_ERROR_IF( ncols > 0 && COL_TYPE( ncols - 1 ) > std::numeric_limits< COL_TYPE >::max(),')],
    'a column count beyond the column type, e.g. 300 columns with a signed char column type',
    'too many columns for the column type are accepted',
    TYP + '''
int main()
{
  SpP< signed char > s;
  REQUIRE( outcome( [&] { s.resize( 2, 128, 0 ); } ) == 0 );
  REQUIRE( outcome( [&] { s.resize( 2, 129, 0 ); } ) == 1 );
}''', includes=SP)

bug('C13-row-capacity', 'C13',
    [('src/SparsityPattern.hpp', '''    if( newCapacity > numColumns() ) newCapacity = numColumns();
    ParentClass::setCapacityOfArray( row, newCapacity );''', '''    if( newCapacity > numColumns() && newCapacity > 2 * nonZeroCapacity( row ) ) newCapacity = numColumns();
    ParentClass::setCapacityOfArray( row, newCapacity );''')],
    'a row that already has capacity and grows to at most twice of it, past the number of columns',
    'a row gets more capacity than there are columns',
    TYP + '''
int main()
{
  SpP< int > s( 2, 5, 0 );
  s.setRowCapacity( 0, 4 );
  s.setRowCapacity( 0, 7 );
  REQUIRE( s.nonZeroCapacity( 0 ) == 5 );
  s.setRowCapacity( 1, 100 );
  REQUIRE( s.nonZeroCapacity( 1 ) == 5 );
}''', includes=SP)

bug('C13-nnz-sum', 'C13',
    [('src/SparsityPatternView.hpp', '  { return numNonZeros() == 0; }', '  { return this->m_offsets[ numRows() ] == 0; }')],
    'a pattern whose rows have capacity but no entry',
    'a pattern with unused row capacity says it is not empty',
    TYP + '''
int main()
{
  SpP< int > s( 2, 5, 3 );
  REQUIRE( s.empty() );
  s.insertNonZero( 1, 4 );
  REQUIRE( !s.empty() );
  s.removeNonZero( 1, 4 );
  REQUIRE( s.empty() && s.empty( 1 ) );
}''', includes=SP)

bug('C14-entry-pairing', 'C14',
    [('src/CRSMatrix.hpp', '      new (&m_entries[pos + nLeftToInsert - 1]) T( m_entriesToInsert[colPos] );',
      '      new (&m_entries[pos + nLeftToInsert - 1]) T( m_entriesToInsert[ nLeftToInsert - 1 ] );')],
    'inserting several columns of which an earlier one is already present',
    'entries are paired with the wrong column when the range contains columns that are already there',
    TYC + '''
int main()
{
  Crs< double > m( 2, 20, 4 );
  m.insertNonZero( 0, 3, 0.5 ); m.insertNonZero( 0, 9, 0.75 );
  int c[ 4 ] = { 1, 3, 5, 9 };
  double v[ 4 ] = { 10, 30, 50, 90 };
  m.insertNonZeros( 0, c, v, 4 );
  double e[ 4 ] = { 10, 0.5, 50, 0.75 };
  REQUIRE( m.numNonZeros( 0 ) == 4 );
  for( int i = 0; i < 4; ++i ) REQUIRE( m.getColumns( 0 )[ i ] == c[ i ] && m.getEntries( 0 )[ i ] == e[ i ] );
  int c2[ 3 ] = { 2, 9, 11 };
  double v2[ 3 ] = { 20, 91, 110 };
  m.insertNonZeros( 0, c2, v2, 3 );
  double e2[ 6 ] = { 10, 20, 0.5, 50, 0.75, 110 };
  for( int i = 0; i < 6; ++i ) REQUIRE( m.getEntries( 0 )[ i ] == e2[ i ] );
}''', includes=CRS)

bug('C14-view-remove', 'C14',
    [('src/CRSMatrixView.hpp', '    { arrayManipulation::shiftDown( m_entries, nextPos, curPos + 1, nRemoved ); }',
      '    { arrayManipulation::shiftDown( m_entries, nextPos, curPos + 1, std::ptrdiff_t( 1 ) ); }')],
    'removing several columns of a row, with survivors behind the second removed one',
    'after the second removed column the entries stay behind their columns',
    TYC + '''
int main()
{
  Crs< double > m( 1, 20, 8 );
  for( int i = 0; i < 6; ++i ) m.insertNonZero( 0, i, 10 * i );
  int c[ 2 ] = { 1, 3 };
  m.removeNonZeros( 0, c, 2 );
  int e[ 4 ] = { 0, 2, 4, 5 };
  for( int i = 0; i < 4; ++i ) REQUIRE( m.getColumns( 0 )[ i ] == e[ i ] && m.getEntries( 0 )[ i ] == 10 * e[ i ] );
}''', includes=CRS)

bug('C14-addtorow-search', 'C14',
    [('src/CRSMatrixView.hpp', '      curPos = pos + 1;', '      curPos = pos + 1 + ( i > 0 );')],
    'the binary search addition to at least three columns of which the third directly follows the second in the row',
    'the position of a following column is skipped and the value goes to a later entry',
    TYC + '''
int main()
{
  Crs< double > m( 2, 20, 8 );
  for( int i = 0; i < 6; ++i ) m.insertNonZero( 0, 2 * i, 0 );
  int c[ 3 ] = { 0, 4, 6 };
  double v[ 3 ] = { 1, 2, 3 };
  m.addToRowBinarySearch< RAJA::seq_atomic >( 0, c, v, 3 );
  double e[ 6 ] = { 1, 0, 2, 3, 0, 0 };
  for( int i = 0; i < 6; ++i ) REQUIRE( m.getEntries( 0 )[ i ] == e[ i ] );
}''', includes=CRS)

bug('C14-zero-types', 'C14',
    [('src/CRSMatrix.hpp', '    bufferManipulation::reserve( this->m_entries, 0, MemorySpace::host, src.nonZeroCapacity() );',
      '    bufferManipulation::reserve( this->m_entries, 0, MemorySpace::host, src.numNonZeros() );')],
    'assimilating a pattern that has spare capacity in its rows',
    'the entries buffer is too small for the offsets of the assimilated pattern',
    TYC + '''
extern "C" char const * __asan_default_options() { return "detect_leaks=0"; }
int main()
{
  SparsityPattern< int, std::ptrdiff_t, MallocBuffer > s( 3, 20, 6 );
  for( int i = 0; i < 3; ++i ) s.insertNonZero( i, i );
  std::ptrdiff_t const cap = s.nonZeroCapacity();
  CRSMatrix< double, int, std::ptrdiff_t, MallocBuffer > m;
  m.assimilate< RAJA::seq_exec >( std::move( s ) );
  REQUIRE( m.nonZeroCapacity() == cap );
  for( int i = 0; i < 3; ++i ) REQUIRE( m.numNonZeros( i ) == 1 && m.getEntries( i )[ 0 ] == 0 );
  for( int i = 1; i < 6; ++i ) { m.insertNonZero( 2, 10 + i, 3 ); m.insertNonZero( 0, 10 + i, 3 ); }
}''', includes=CRS, flags='-DNDEBUG -fsanitize=address')

bug('C15-unsigned-min', 'C15',
    [('src/limits.hpp', '  LVARRAY_ERROR_IF_LT( input, std::make_signed_t< OUTPUT >{ NumericLimits< OUTPUT >::min } );',
      '  LVARRAY_ERROR_IF_LT( static_cast< std::make_signed_t< OUTPUT > >( input ), std::make_signed_t< OUTPUT >( NumericLimits< OUTPUT >::min ) );')],
    'a very negative value whose low bits form a non-negative value of the narrower type',
    'values below the range of the output are accepted when their low bits look positive',
    '''
using namespace LvArray;
int main()
{
  REQUIRE( integerConversion< short >( -32768 ) == -32768 );
  REQUIRE( outcome( [] { integerConversion< short >( -32769 ); } ) == 1 );
  REQUIRE( outcome( [] { integerConversion< short >( -40000 ); } ) == 1 );
  REQUIRE( outcome( [] { integerConversion< int >( std::int64_t( -1 ) << 32 ); } ) == 1 );
}''', includes=('limits.hpp',))

bug('C15-unsigned-max', 'C15',
    [('src/limits.hpp', '  LVARRAY_ERROR_IF_GT( input, NumericLimits< OUTPUT >::max );\n\n  return static_cast< OUTPUT >( input );\n}',
      '  LVARRAY_ERROR_IF_GT( static_cast< std::make_unsigned_t< OUTPUT > >( input ), static_cast< std::make_unsigned_t< OUTPUT > >( NumericLimits< OUTPUT >::max ) );\n\n  return static_cast< OUTPUT >( input );\n}')],
    'an unsigned value above the range of a narrower output whose low bits fit',
    'unsigned values are cut to the output type before they are compared with its maximum',
    '''
using namespace LvArray;
int main()
{
  REQUIRE( integerConversion< int >( 2147483647u ) == 2147483647 );
  REQUIRE( outcome( [] { integerConversion< int >( 2147483648u ); } ) == 1 );
  REQUIRE( outcome( [] { integerConversion< short >( 65535u ); } ) == 1 );
  REQUIRE( outcome( [] { integerConversion< short >( 65536u + 5u ); } ) == 1 );
}''', includes=('limits.hpp',))

bug('C16-invsqrt-float', 'C16',
    [('src/math.hpp', '''template< typename T >
LVARRAY_HOST_DEVICE inline
double invSqrt( T const x )
{
#if defined( __CUDA_ARCH__ )
  return ::rsqrt( double( x ) );
#else
  return 1 / std::sqrt( x );
#endif''', '''template< typename T >
LVARRAY_HOST_DEVICE inline
double invSqrt( T const x )
{
#if defined( __CUDA_ARCH__ )
  return ::rsqrt( double( x ) );
#else
  return 1 / std::sqrt( static_cast< float >( x ) );
#endif''')],
    'double or integer arguments that a float cannot hold exactly',
    'the inverse square root of a double is computed in single precision',
    '''
using namespace LvArray;
int main()
{
  REQUIRE( math::invSqrt( 4.0 ) == 0.5 );
  REQUIRE( math::invSqrt( 3.1 ) == 1 / std::sqrt( 3.1 ) );
  REQUIRE( math::invSqrt( 16777217 ) == 1 / std::sqrt( 16777217.0 ) );
}''', includes=('cmath', 'math.hpp'))

bug('C16-abs-int', 'C16',
    [('src/math.hpp', '  return std::abs( x );', '  return x < 0 ? -x : x;')],
    'the negative zero',
    'abs( -0.0 ) keeps the sign bit',
    '''
using namespace LvArray;
int main()
{
  REQUIRE( math::abs( -2.5 ) == 2.5 && math::abs( 3 ) == 3 && math::abs( -3L ) == 3 );
  REQUIRE( !std::signbit( math::abs( -0.0 ) ) );
  REQUIRE( 1 / math::abs( -0.0f ) > 0 );
}''', includes=('cmath', 'math.hpp'))

bug('C16-min-difference', 'C16',
    [('src/math.hpp', '  return std::min( a, b );', '  return T( a - b ) < T( 0 ) ? a : b;')],
    'unsigned arguments, narrow ones or ones whose difference overflows',
    'min compares through the sign of the difference, which wraps around',
    '''
using namespace LvArray;
int main()
{
  REQUIRE( math::min( 1, 2 ) == 1 && math::min( 2.0, 1.0 ) == 1.0 );
  REQUIRE( math::min( 1u, 2u ) == 1u );
  signed char const a = -100, b = 100;
  REQUIRE( math::min( a, b ) == a );
}''', includes=('cmath', 'math.hpp'))
