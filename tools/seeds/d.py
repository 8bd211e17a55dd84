AM, AV, AA = 'src/arrayManipulation.hpp', 'src/ArrayView.hpp', 'src/ArrayOfArrays.hpp'
ARR = ('Array.hpp', 'MallocBuffer.hpp')
AOA = ('string', 'ArrayOfArrays.hpp', 'MallocBuffer.hpp')
CHK = '-DLV_BOUNDS_CHECK -UNDEBUG'
bug('C26-pop-last', 'C26',
    [(AM, '  LVARRAY_ASSERT( size > 0 );\n', '  LVARRAY_ASSERT( size > 1 );\n')],
    'a build with assertions and popping the only value', 'popping the last remaining value of an array trips an assertion',
    '''
using namespace LvArray;
int main()
{
  Array< int, 1, RAJA::PERM_I, int, MallocBuffer > a; a.emplace_back( 1 ); a.emplace_back( 2 );
  REQUIRE( outcome( [&] { a.pop_back(); } ) == 0 );
  REQUIRE( outcome( [&] { a.pop_back(); a.pop_back(); } ) == 0 );
}''', includes=ARR, flags='-UNDEBUG')
bug('C26-erase-last', 'C26',
    [(AM, '  ARRAYMANIPULATION_CHECK_BOUNDS( index + n - 1 );', '  ARRAYMANIPULATION_CHECK_BOUNDS( index + n );')],
    'bounds checking and erasing the last value', 'the checked build refuses to erase the last value',
    '''
using namespace LvArray;
int main()
{
  Array< int, 1, RAJA::PERM_I, int, MallocBuffer > a; for( int i = 0; i < 3; ++i ) a.emplace_back( i );
  REQUIRE( outcome( [&] { a.erase( 1 ); } ) == 0 );
  REQUIRE( outcome( [&] { a.erase( 3 ); } ) == 1 );
  REQUIRE( outcome( [&] { a.erase( 2 ); } ) == 0 );
}''', includes=ARR, flags=CHK)
bug('C26-duplicates-order', 'C26',
    [('src/sortedArrayManipulation.hpp', '  LVARRAY_ASSERT( isSorted( first, last, comp ) );\n\n  if( first == last )', '  LVARRAY_ASSERT( isSorted( first, last ) );\n\n  if( first == last )')],
    'assertions on and a comparison other than less', 'removeDuplicates of a descending range trips its assertion',
    '''
using namespace LvArray;
int main()
{
  int a[ 4 ] = { 1, 2, 2, 3 }, b[ 4 ] = { 3, 2, 2, 1 };
  REQUIRE( outcome( [&] { sortedArrayManipulation::removeDuplicates( a, a + 4 ); } ) == 0 );
  REQUIRE( outcome( [&] { sortedArrayManipulation::removeDuplicates( b, b + 4, sortedArrayManipulation::greater< int >() ); } ) == 0 );
}''', includes=('sortedArrayManipulation.hpp',), flags='-UNDEBUG')
bug('C26-add-last', 'C26',
    [('src/CRSMatrixView.hpp', '''cols[ i ] ) + curPos;
      LVARRAY_ASSERT_GT( nnz, pos );
''', '''cols[ i ] ) + curPos;
      LVARRAY_ASSERT_GT( nnz - i, pos );
''')],
    'assertions on, adding to several entries of a row with the binary search', 'adding to the end of a row trips an assertion',
    '''
using namespace LvArray;
int main()
{
  CRSMatrix< double, int, std::ptrdiff_t, MallocBuffer > m( 1, 9, 9 ); for( int i = 0; i < 5; ++i ) m.insertNonZero( 0, i, 1.0 );
  int c[ 3 ] = { 0, 3, 4 }; double v[ 3 ] = { 1, 2, 3 };
  REQUIRE( outcome( [&] { m.toViewConstSizes().addToRowBinarySearch< RAJA::seq_atomic >( 0, c, v, 1 ); } ) == 0 );
  REQUIRE( outcome( [&] { m.toViewConstSizes().addToRowBinarySearch< RAJA::seq_atomic >( 0, c, v, 3 ); } ) == 0 );
}''', includes=('CRSMatrix.hpp', 'MallocBuffer.hpp'), flags='-UNDEBUG')
bug('C10-grow-range', 'C10',
    [(AA, '      setCapacityOfArray( i, 2 * newArraySize );', '      setCapacityOfArray( i, math::max( 2 * capacityOfArray( i ), INDEX_TYPE( sizeOfArray( i ) + 1 ) ) );')],
    'a range of more than one value that does not fit twice the capacity of its row', 'the row grows too little and the values run into the next one',
    '''
using namespace LvArray;
int main()
{
  ArrayOfArrays< int, std::ptrdiff_t, MallocBuffer > a( 2, 2 ); int v[ 5 ] = { 1, 2, 3, 4, 5 };
  a.emplaceBack( 1, 77 ); a.emplaceBack( 1, 78 );
  a.appendToArray( 0, v, v + 4 ); REQUIRE( a( 1, 0 ) == 77 && a( 0, 3 ) == 4 );
  a.appendToArray( 0, v, v + 5 ); REQUIRE( a( 1, 0 ) == 77 && a( 1, 1 ) == 78 && a( 0, 8 ) == 5 && a.capacityOfArray( 0 ) >= 9 );
  a.insertArray( 1, v, v + 3 );
  REQUIRE( a.capacityOfArray( 1 ) >= 3 && a( 1, 2 ) == 3 && a( 2, 0 ) == 77 && a( 2, 1 ) == 78 );
}''', includes=AOA)
bug('C11-stale-sizes', 'C11',
    [('src/ArrayOfArraysView.hpp', '    std::fill_n( m_sizes.data(), numSubArrays, 0 );', '    std::fill_n( m_sizes.data(), math::min( numSubArrays, m_numArrays + 1 ), 0 );')],
    'building from capacities over a container that had more rows before', 'rows beyond the current ones keep stale sizes',
    '''
using namespace LvArray;
int main()
{
  ArrayOfArrays< int, std::ptrdiff_t, MallocBuffer > a( 5, 3 ); for( int i = 0; i < 5; ++i ) { a.emplaceBack( i, i ); a.emplaceBack( i, i ); }
  a.resize( 1 ); std::ptrdiff_t caps[ 5 ] = { 2, 2, 2, 2, 2 };
  a.resizeFromCapacities< RAJA::loop_exec >( 5, caps );
  for( int i = 0; i < 5; ++i ) REQUIRE( a.sizeOfArray( i ) == 0 );
}''', includes=AOA)
bug('C10-resize-forward', 'C10',
    [(AM, '      new ( ptr + i ) T( args ... );', '      new ( ptr + i ) T( std::forward< ARGS >( args ) ... );')],
    'a temporary of a type with a real move as default value for two or more new values', 'only the first new value gets the default, the others a moved-from one',
    '''
using namespace LvArray;
int main()
{
  std::string const text( "a default that is too long for the small string optimisation" );
  ArrayOfArrays< std::string, std::ptrdiff_t, MallocBuffer > a( 2 ); 
  a.resizeArray( 0, 3, text ); REQUIRE( a( 0, 2 ) == text );
  a.resizeArray( 1, 3, std::string( text ) ); REQUIRE( a( 1, 0 ) == text && a( 1, 2 ) == text );
}''', includes=AOA)
bug('C05-empty-columns', 'C05',
    [('src/SparsityPattern.hpp', '    this->m_numCols = src.m_numCols;\n    ParentClass::setEqualTo', '    if( src.m_numArrays > 0 ) this->m_numCols = src.m_numCols;\n    ParentClass::setEqualTo')],
    'assigning a pattern without rows but with columns', 'the column count of a pattern without rows is not copied',
    '''
using namespace LvArray;
int main()
{
  SparsityPattern< int, std::ptrdiff_t, MallocBuffer > a( 2, 3, 1 ), b( 0, 7, 0 ), c( 1, 5, 1 );
  a = c; REQUIRE( a.numColumns() == 5 && a.numRows() == 1 );
  a = b; REQUIRE( a.numColumns() == 7 && a.numRows() == 0 );
}''', includes=('SparsityPattern.hpp', 'MallocBuffer.hpp'))
bug('C13-reserve-row', 'C13',
    [('src/SparsityPattern.hpp', '    if( nonZeroCapacity( row ) >= nnz ) return;', '    if( nonZeroCapacity( row ) >= nnz || nnz > numColumns() ) return;')],
    'reserving more entries in a row than there are columns', 'the row keeps its small capacity instead of getting one slot per column',
    '''
using namespace LvArray;
int main()
{
  SparsityPattern< int, std::ptrdiff_t, MallocBuffer > a( 2, 4, 1 );
  a.reserveNonZeros( 0, 3 ); REQUIRE( a.nonZeroCapacity( 0 ) == 3 );
  a.reserveNonZeros( 1, 9 ); REQUIRE( a.nonZeroCapacity( 1 ) == 4 );
}''', includes=('SparsityPattern.hpp', 'MallocBuffer.hpp'))
CHAI = '''
#define LVARRAY_USE_CUDA
#include "ChaiBuffer.hpp"
#include "SortedArray.hpp"
#include "Array.hpp"
using namespace LvArray;
'''
CI = ('math.hpp', 'limits.hpp', 'Macros.hpp')
bug('C32-realloc-touch', 'C32',
    [('src/ChaiBuffer.hpp', '    m_pointerRecord = newRecord;\n    registerTouch( space );', '    m_pointerRecord = newRecord;\n    registerTouch( size > 0 ? space : MemorySpace::host );')],
    'allocating an empty buffer on the device and writing it there', 'what is written on the device is not carried back',
    CHAI + '''
int main()
{
  ChaiBuffer< int > b( true ); b.reallocate( 0, MemorySpace::cuda, 3 );
  for( int i = 0; i < 3; ++i ) b.data()[ i ] = 5 + i;
  b.move( MemorySpace::host, true ); for( int i = 0; i < 3; ++i ) REQUIRE( b[ i ] == 5 + i );
  b.free();
}''', includes=CI)
bug('C32-sorted-device', 'C32',
    [('src/SortedArrayView.hpp', '    if( space == MemorySpace::cuda ) touch = false;\n', '    if( space == MemorySpace::cuda && size() == 0 ) touch = false;\n')],
    'a non-empty sorted array moved to the device with touch', 'what happens to a sorted array on the device overwrites the host values',
    CHAI + '''
int main()
{
  SortedArray< int, int, ChaiBuffer > s; s.insert( 4 ); s.insert( 9 );
  s.move( MemorySpace::cuda, false ); const_cast< int * >( s.data() )[ 0 ] = 77; s.move( MemorySpace::host, false ); REQUIRE( s[ 0 ] == 4 );
  s.move( MemorySpace::host, true );
  s.move( MemorySpace::cuda, true ); const_cast< int * >( s.data() )[ 0 ] = 77; s.move( MemorySpace::host, true ); REQUIRE( s[ 0 ] == 4 );
}''', includes=CI)
bug('C32-nested-order', 'C32',
    [('src/ChaiBuffer.hpp', '    for( int s = chai::CPU; s < chai::NUM_EXECUTION_SPACES; ++s )\n    {\n      newRecord->m_allocators[ s ] = m_pointerRecord->m_allocators[ s ];', '    for( int s = chai::CPU; s < chai::NUM_EXECUTION_SPACES; ++s )\n    {\n      newRecord->m_allocators[ s ] = m_capacity > 0 ? m_pointerRecord->m_allocators[ s ] : internal::getArrayManager().getAllocatorId( chai::ExecutionSpace( s ) );')],
    'a buffer built with allocators of its own', 'the first allocation forgets which allocators were asked for',
    CHAI + '''
int main()
{
  ChaiBuffer< int > a( true ), b( { MemorySpace::host }, { umpire::Allocator{ 5 } } );
  a.reallocate( 0, MemorySpace::host, 3 ); b.reallocate( 0, MemorySpace::host, 3 );
  REQUIRE( b.pointerRecord().m_allocators[ chai::CPU ] == 5 );
  a.free(); b.free();
}''', includes=CI)
bug('C02-tensor-extent', 'C02',
    [('src/genericTensorOps.hpp', '''  internal::checkSizes< ISIZE, JSIZE >( dstMatrix );
  internal::checkSizes< JSIZE, ISIZE >( srcMatrix );
''', '''  internal::checkSizes< ISIZE, JSIZE >( dstMatrix );
  internal::checkSizes< ISIZE < JSIZE ? JSIZE : ISIZE, ISIZE < JSIZE ? ISIZE : JSIZE >( srcMatrix );
''')],
    'bounds checking and transposing a matrix that has more rows than columns', 'the wide source of a tall transpose is rejected and a tall one accepted',
    '''
using namespace LvArray;
int main()
{
  Array< int, 2, RAJA::PERM_IJ, int, MallocBuffer > a( 2, 3 ), b( 3, 2 );
  REQUIRE( outcome( [&] { tensorOps::transpose< 2, 3 >( a, b ); } ) == 0 );
  REQUIRE( outcome( [&] { tensorOps::transpose< 3, 2 >( b, a ); } ) == 0 );
  REQUIRE( outcome( [&] { tensorOps::transpose< 3, 2 >( b, b ); } ) == 1 );
}''', includes=('Array.hpp', 'MallocBuffer.hpp', 'tensorOps.hpp'), flags='-DLV_BOUNDS_CHECK')
