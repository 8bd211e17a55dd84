CHAI = '''
#define LVARRAY_USE_CUDA
#include "ChaiBuffer.hpp"
using namespace LvArray;
'''
CI = ('math.hpp', 'limits.hpp', 'Macros.hpp')
# ---- further dimensions
bug('C21-print-slack', 'C21',
    [('src/output.hpp', '''      printf( "row      col      value \\n" );''', '''      INDEX_TYPE k = 0;
      printf( "row      col      value \\n" );'''),
     ('src/output.hpp', '''                  integerConversion< long long >( cols[ row_indexes[ i ] + j ] ),
                  double( values[ row_indexes[ i ] + j ] ) );''', '''                  integerConversion< long long >( cols[ k ] ),
                  double( values[ k ] ) );
          ++k;''')],
    'printing a matrix whose rows have spare capacity', 'columns and values of the wrong place are printed',
    '''
using namespace LvArray;
int main()
{
  CRSMatrix< double, int, int, MallocBuffer > m( 2, 9, 4 ); m.insertNonZero( 0, 3, 1.5 ); m.insertNonZero( 1, 7, 2.5 );
  std::fflush( stdout ); int const old = dup( 1 ); std::FILE * const f = std::tmpfile(); dup2( fileno( f ), 1 ); print< RAJA::seq_exec >( m.toViewConst() ); std::cout.flush(); std::fflush( stdout ); dup2( old, 1 ); std::rewind( f );
  std::string t; for( int c; ( c = std::fgetc( f ) ) != EOF; ) t += static_cast< char >( c ); REQUIRE( t.find( "7" ) != std::string::npos && t.find( "2.5" ) != std::string::npos && t.find( "1.5" ) != std::string::npos );
}''', includes=('CRSMatrix.hpp','MallocBuffer.hpp','output.hpp','unistd.h','cstdio','string'))
bug('C32-device-allocator', 'C32',
    [('src/ChaiBuffer.hpp', '''    for( int s = chai::CPU; s < chai::NUM_EXECUTION_SPACES; ++s )
    {
      newRecord->m_allocators[ s ] = m_pointerRecord->m_allocators[ s ];
    }''', '''    // The allocator of the space it is in, the others have their defaults.
    for( int s = chai::CPU; s < chai::NUM_EXECUTION_SPACES; ++s )
    {
      newRecord->m_allocators[ s ] = s == internal::toChaiExecutionSpace( space ) ? m_pointerRecord->m_allocators[ s ] : internal::getArrayManager().getAllocatorId( chai::ExecutionSpace( s ) );
    }''')],
    'a buffer made with an allocator of its own for a space, reallocated in another', 'the allocator asked for is forgotten',
    CHAI + '''
int main()
{
  ChaiBuffer< int > b( { MemorySpace::cuda }, { umpire::Allocator{ 5 } } ); b.reallocate( 0, MemorySpace::host, 3 );
  REQUIRE( b.pointerRecord().m_allocators[ chai::GPU ] == 5 ); b.free();
}''', includes=CI)
bug('C24-evaluated-twice', 'C24',
    [('src/Macros.hpp', '''#define LVARRAY_ERROR_IF_OP_MSG( lhs, OP, NOP, rhs, msg ) \\
  LVARRAY_ERROR_IF( lhs OP rhs, \\''', '''#define LVARRAY_ERROR_IF_OP_MSG( lhs, OP, NOP, rhs, msg ) \\
  LVARRAY_ERROR_IF( lhs OP rhs && lhs == lhs, \\''')],
    'an operand with a side effect', 'the side effect happens twice when the comparison fires (and NaN operands are let through)',
    '''
using namespace LvArray;
int main() { int n = 0, calls = 0; system::setErrorHandler( [&n] () { ++n; } ); auto next = [&calls] () { return ++calls; }; double const nan = std::nan( "" ); (void) next; LVARRAY_ERROR_IF_NE( nan, 1.0 ); REQUIRE( n == 1 ); LVARRAY_ERROR_IF_GT( 3, 2 ); REQUIRE( n == 2 ); }''', includes=('Macros.hpp','system.hpp','cmath'))
bug('C02-slice-extent', 'C02',
    [('src/ArraySlice.hpp', '''  LVARRAY_ERROR_IF( index < 0 || index >= m_dims[ 0 ], \\''', '''  LVARRAY_ERROR_IF( index < 0 || index >= m_dims[ NDIM > 2 && USD == 0 ? 1 : 0 ], \\''')],
    'bounds checking on slices of three dimensions whose first one is contiguous', 'the index is compared with the extent of another dimension',
    '''
using namespace LvArray;
int main()
{
  Array< int, 3, RAJA::PERM_KJI, int, MallocBuffer > a( 2, 4, 3 ); auto const s = a.toSlice();
  REQUIRE( outcome( [&] { (void) s[ 1 ]; } ) == 0 ); REQUIRE( outcome( [&] { (void) s[ 2 ]; } ) == 1 ); REQUIRE( outcome( [&] { (void) s[ -1 ]; } ) == 1 );
}''', includes=('Array.hpp', 'MallocBuffer.hpp'), flags='-DLV_BOUNDS_CHECK')
bug('C07-resize-index', 'C07',
    [('src/ArrayView.hpp', '''    m_dims[ USD ] = typeManipulation::convertSize< T, U >( m_dims[ USD ] );

    for( int i = 0; i < NDIM; ++i )
    {
      if( i != USD )
      {
        m_strides[ i ] = typeManipulation::convertSize< T, U >( m_strides[ i ] );
      }
    }''', '''    m_dims[ USD ] = typeManipulation::convertSize< T, U >( m_dims[ USD ] );

    for( int i = 0; i < NDIM; ++i )
    {
      // Strides of one are the contiguous ones.
      if( m_strides[ i ] != 1 )
      {
        m_strides[ i ] = typeManipulation::convertSize< T, U >( m_strides[ i ] );
      }
    }''')],
    'viewing an array with an extent of one in the contiguous dimension as smaller elements', 'strides of one besides the contiguous one are kept',
    '''
using namespace LvArray;
int main() { Array< double, 2, RAJA::PERM_IJ, int, MallocBuffer > a( 3, 1 ); ArrayView< float, 2, 1, int, MallocBuffer > const v( a.toView() ); REQUIRE( v.size( 0 ) == 3 && v.size( 1 ) == 2 ); for( int i = 0; i < 3; ++i ) REQUIRE( reinterpret_cast< char * >( &v( i, 0 ) ) == reinterpret_cast< char * >( &a( i, 0 ) ) ); }''', includes=('Array.hpp','MallocBuffer.hpp'))
bug('C13-view-empty', 'C13',
    [('src/SparsityPatternView.hpp', '''  bool empty( INDEX_TYPE const row, COL_TYPE const col ) const
  { return !ParentClass::contains( row, col ); }''', '''  bool empty( INDEX_TYPE const row, COL_TYPE const col ) const
  {
    // Rows without gaps need no search.
    INDEX_TYPE const n = numNonZeros( row );
    if( n > 0 && this->getSetValues( row )[ n - 1 ] - this->getSetValues( row )[ 0 ] == n ) return col < this->getSetValues( row )[ 0 ] || col > this->getSetValues( row )[ n - 1 ];
    return !ParentClass::contains( row, col );
  }''')],
    'asking for a column missing in a row that has exactly one gap', 'the column in the gap counts as present',
    '''
using namespace LvArray;
int main() { SparsityPattern< int, int, MallocBuffer > p( 1, 9, 4 ); for( int c: { 2, 3, 5 } ) p.insertNonZero( 0, c ); for( int c = 0; c < 9; ++c ) REQUIRE( p.empty( 0, c ) == !( c == 2 || c == 3 || c == 5 ) ); }''', includes=('SparsityPattern.hpp','MallocBuffer.hpp'))
bug('C06-empty-slice', 'C06',
    [('src/ArrayView.hpp', '''  bool empty() const
  { return size() == 0; }''', '''  bool empty() const
  { return m_dims[ 0 ] == 0; }''')],
    'an array that has no elements because a dimension behind the first is empty', 'it is not reported as empty',
    '''
using namespace LvArray;
int main() { Array< int, 2, RAJA::PERM_IJ, int, MallocBuffer > a( 3, 0 ), b( 0, 3 ), c( 1, 1 ); REQUIRE( a.empty() && b.empty() && !c.empty() ); }''', includes=('Array.hpp','MallocBuffer.hpp'))
bug('C32-name-lost', 'C32',
    [('src/ChaiBuffer.hpp', '''    newRecord->m_user_callback = m_pointerRecord->m_user_callback;
''', '''    // An empty buffer does not move, there is nothing to report.
    if( m_capacity > 0 ) newRecord->m_user_callback = m_pointerRecord->m_user_callback;
''')],
    'a buffer named before its first allocation, moved between the spaces', 'the move is not reported',
    '''
#define LV_CHAI_CALLBACK 1
#define LVARRAY_USE_CUDA
#include "ChaiBuffer.hpp"
using namespace LvArray;
int main()
{
  ChaiBuffer< int > b( true ); b.setName( "pressure" ); b.reallocate( 0, MemorySpace::host, 3 ); b[ 0 ] = b[ 1 ] = b[ 2 ] = 4; std::stringbuf text; std::streambuf * const o = std::cout.rdbuf( &text );
  b.move( MemorySpace::cuda, false ); std::cout.rdbuf( o ); REQUIRE( text.str().find( "pressure" ) != std::string::npos ); b.free();
}''', includes=CI + ('sstream', 'iostream'))
bug('C07-remainder', 'C07',
    [('src/typeManipulation.hpp', '''  INDEX_TYPE const remainder = numU % numUPerT;
  LVARRAY_ERROR_IF_NE( remainder, 0 );

  return numU / numUPerT;''', '''  // What is left over shows when converting back.
  INDEX_TYPE const numT = numU / numUPerT;
  LVARRAY_ERROR_IF_NE( numT * INDEX_TYPE( sizeof( T ) / 4 ), numU * INDEX_TYPE( sizeof( U ) / 4 ) );

  return numT;''')],
    'viewing elements of less than four bytes as larger ones that do not fit evenly', 'the view is made although a remainder is left',
    '''
using namespace LvArray;
int main()
{
  Array< short, 1, RAJA::PERM_I, int, MallocBuffer > a( 6 ), b( 3 );
  REQUIRE( outcome( [&] { ArrayView< int, 1, 0, int, MallocBuffer > v( a.toView() ); if( v.size() != 3 ) exit( 5 ); } ) == 0 );
  REQUIRE( outcome( [&] { ArrayView< int, 1, 0, int, MallocBuffer > v( b.toView() ); } ) == 1 );
}''', includes=('Array.hpp','MallocBuffer.hpp'))
bug('C13-columns-narrow', 'C13',
    [('src/SparsityPattern.hpp', '''    LVARRAY_ERROR_IF( nCols > 0 && nCols - 1 > std::numeric_limits< COL_TYPE >::max(),
                      "COL_TYPE must be able''', '''    LVARRAY_ERROR_IF( nRows > 0 && rowCapacities[ 0 ] > 0 && nCols - 1 > std::numeric_limits< COL_TYPE >::max(),
                      "COL_TYPE must be able''')],
    'resizing from row capacities, the first one zero, with more columns than the column type can count', 'the pattern is made although its columns cannot be named',
    '''
using namespace LvArray;
int main()
{
  int const caps[ 2 ] = { 0, 3 }; SparsityPattern< signed char, int, MallocBuffer > p;
  REQUIRE( outcome( [&] { p.resizeFromRowCapacities< RAJA::loop_exec >( 2, 128, caps ); } ) == 0 );
  REQUIRE( outcome( [&] { p.resizeFromRowCapacities< RAJA::loop_exec >( 2, 129, caps ); } ) == 1 );
}''', includes=('SparsityPattern.hpp','MallocBuffer.hpp'))
bug('C12-clear-keeps', 'C12',
    [('src/ArrayOfSets.hpp', '''    arrayManipulation::resize( values, prevSize, INDEX_TYPE( 0 ) );
    this->m_sizes[ i ] = 0;''', '''    if( prevSize < this->capacityOfSet( i ) || i == 0 ) arrayManipulation::resize( values, prevSize, INDEX_TYPE( 0 ) );
    this->m_sizes[ i ] = 0;''')],
    'clearing a full set behind the first one whose values own memory', 'the values are never destroyed',
    '''
using namespace LvArray;
static int g_live = 0;
struct V { int v; V( int x = 0 ): v( x ) { ++g_live; } V( V const & o ): v( o.v ) { ++g_live; } ~V() { --g_live; } V & operator=( V const & ) = default; bool operator<( V const & o ) const { return v < o.v; } bool operator==( V const & o ) const { return v == o.v; } bool operator!=( V const & o ) const { return v != o.v; } };
int main()
{
  ArrayOfSets< V, int, MallocBuffer > a; a.appendSet( 2 ); a.appendSet( 2 ); for( int k = 0; k < 4; ++k ) a.insertIntoSet( k / 2, V( k ) ); REQUIRE( g_live == 4 ); a.clearSet( 1 ); REQUIRE( g_live == 2 && a.sizeOfSet( 1 ) == 0 ); a.clearSet( 0 ); REQUIRE( g_live == 0 );
}''', includes=('ArrayOfSets.hpp','MallocBuffer.hpp'))
bug('C32-shrink-leak', 'C32',
    [('src/ChaiBuffer.hpp', '''      arrayManipulation::destroy( m_pointer, size );''', '''      arrayManipulation::destroy( m_pointer, overlapAmount );''')],
    'shrinking the capacity of a buffer below its size when the values own memory', 'the values that no longer fit are never destroyed',
    CHAI + '''
static int g_live = 0;
struct V { int v; V( int x = 0 ): v( x ) { ++g_live; } V( V const & o ): v( o.v ) { ++g_live; } ~V() { --g_live; } };
int main()
{
  ChaiBuffer< V > b( true ); b.reallocate( 0, MemorySpace::host, 3 ); for( int k = 0; k < 3; ++k ) new ( b.data() + k ) V( k ); b.reallocate( 3, MemorySpace::host, 5 ); REQUIRE( g_live == 3 );
  b.reallocate( 3, MemorySpace::host, 1 ); REQUIRE( g_live == 1 && b[ 0 ].v == 0 ); b[ 0 ].~V(); b.free();
}''', includes=CI)
