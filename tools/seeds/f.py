# ---- further ones, mostly two steps away from ordinary use
bug('C03-default-members', 'C03',
    [('src/arrayManipulation.hpp', '''  if( sizeof ... ( ARGS ) == 0 && std::is_trivially_default_constructible< T >::value )
  {
    if( newSize - size > 0 )''', '''  if( sizeof ... ( ARGS ) == 0 && std::is_trivially_copyable< T >::value )
  {
    if( newSize - size > 0 )''')],
    'a value type that can be copied byte by byte and has a default constructor that does not give zeros', 'new elements are zero bytes instead of default values',
    '''
using namespace LvArray;
struct Id { int v = -1; };
int main() { Array< Id, 1, RAJA::PERM_I, int, MallocBuffer > a; a.resize( 3 ); REQUIRE( a[ 0 ].v == -1 && a[ 2 ].v == -1 ); }''', includes=('Array.hpp','MallocBuffer.hpp','bufferManipulation.hpp'))
bug('C04-clear-dim', 'C04',
    [('src/Array.hpp', 'this->m_dims[ this->getSingleParameterResizeIndex() ] = 0;', 'this->m_dims[ 0 ] = 0;')],
    'clearing an array whose resizable dimension is not the first', 'the wrong extent becomes zero',
    '''
using namespace LvArray;
int main() { Array< int, 2, RAJA::PERM_IJ, int, MallocBuffer > a( 3, 4 ); a.setSingleParameterResizeIndex( 1 ); a.clear(); REQUIRE( a.size() == 0 ); a.resize( 5 ); REQUIRE( a.size( 0 ) == 3 && a.size( 1 ) == 5 && a.size() == 15 ); }''', includes=('Array.hpp','MallocBuffer.hpp','bufferManipulation.hpp'))
bug('C04-shrink-zero', 'C04',
    [('src/Array.hpp', '''      for( INDEX_TYPE i = 0; i < totalValuesToRemove; ++i )
      {
        ptr[ newSize + i ].~T();''', '''      for( INDEX_TYPE i = 0; i < totalValuesToRemove && newDimLength > 0; ++i )
      {
        ptr[ newSize + i ].~T();''')],
    'shrinking a dimension that is not the first in memory to zero', 'the values are not destroyed',
    '''
using namespace LvArray;
static int live = 0; struct C { C() { ++live; } C( C const & ) { ++live; } C( C && ) { ++live; } C & operator=( C const & ) = default; C & operator=( C && ) = default; ~C() { --live; } };
int main() { Array< C, 2, RAJA::PERM_IJ, int, MallocBuffer > a( 3, 4 ); a.setSingleParameterResizeIndex( 1 ); a.resize( 2 ); REQUIRE( live == 6 ); a.resize( 0 ); REQUIRE( live == 0 ); }''', includes=('Array.hpp','MallocBuffer.hpp','bufferManipulation.hpp'))
bug('C10-erase-empty', 'C10',
    [('src/ArrayOfArrays.hpp', '    setCapacityOfArray( i, 0 );\n    bufferManipulation::erase( this->m_offsets', '    if( this->m_sizes[ i ] > 0 )\n      setCapacityOfArray( i, 0 );\n    bufferManipulation::erase( this->m_offsets')],
    'erasing an array that is empty but has capacity, with an array behind it', 'the array behind it loses its values',
    '''
using namespace LvArray;
int main() { ArrayOfArrays< int, int, MallocBuffer > a; a.resize( 3, 2 ); a.emplaceBack( 0, 5 ); a.emplaceBack( 2, 7 ); a.eraseArray( 1 ); REQUIRE( a.size() == 2 && a.sizeOfArray( 1 ) == 1 && a( 1, 0 ) == 7 && a( 0, 0 ) == 5 ); }''', includes=('ArrayOfArrays.hpp','MallocBuffer.hpp'))
bug('C11-compress-middle', 'C11',
    [('src/ArrayOfArraysView.hpp', '''      INDEX_TYPE const shiftAmount = nextOffset - m_offsets[ i ] - sizeOfArray( i );
      INDEX_TYPE const sizeOfNextArray''', '''      INDEX_TYPE const shiftAmount = sizeOfArray( i ) == 0 ? 0 : nextOffset - m_offsets[ i ] - sizeOfArray( i );
      INDEX_TYPE const sizeOfNextArray''')],
    'compressing with an empty array that has capacity', 'the capacity of the empty array stays between its neighbours',
    '''
using namespace LvArray;
int main() { ArrayOfArrays< int, int, MallocBuffer > a; a.resize( 3, 2 ); a.emplaceBack( 0, 5 ); a.emplaceBack( 2, 7 ); a.compress(); REQUIRE( a.capacityOfArray( 1 ) == 0 && a( 2, 0 ) == 7 && a( 0, 0 ) == 5 ); for( int i = 0; i < 3; ++i ) REQUIRE( a.capacityOfArray( i ) == a.sizeOfArray( i ) ); }''', includes=('ArrayOfArrays.hpp','MallocBuffer.hpp'))
bug('C19-sum-overwrites', 'C19',
    [('src/sliceHelpers.hpp', '''  INDEX_TYPE const bounds = src.size( 0 );
  for( INDEX_TYPE i = 0; i < bounds; ++i )
  {
    dst += src( i );
  }''', '''  INDEX_TYPE const bounds = src.size( 0 );
  T sum = 0;
  for( INDEX_TYPE i = 0; i < bounds; ++i )
  {
    sum += src( i );
  }
  if( sum != T( 0 ) )
    dst = dst + sum;
  else
    dst = sum;''')],
    'adding values that sum to zero to a nonzero total', 'the total is lost',
    '''
using namespace LvArray;
int main() { Array< int, 1, RAJA::PERM_I, int, MallocBuffer > a( 2 ); a[ 0 ] = 3; a[ 1 ] = -3; int d = 5; sumOverFirstDimension( a.toSliceConst(), d ); REQUIRE( d == 5 ); }''', includes=('Array.hpp','MallocBuffer.hpp','sliceHelpers.hpp'))
bug('C22-shrink-lives', 'C22',
    [('src/MallocBuffer.hpp', 'arrayManipulation::destroy( m_data, size );', 'arrayManipulation::destroy( m_data, overlapAmount );')],
    'reducing the capacity of a buffer below the number of values', 'the values that do not fit are never destroyed',
    '''
using namespace LvArray;
static int live = 0; struct C { C() { ++live; } C( C const & ) { ++live; } C( C && ) { ++live; } C & operator=( C const & ) = default; C & operator=( C && ) = default; ~C() { --live; } };
int main() { MallocBuffer< C > b( true ); bufferManipulation::resize( b, 0, 5 ); REQUIRE( live == 5 ); bufferManipulation::setCapacity( b, 5, MemorySpace::host, 2 ); REQUIRE( live == 2 ); bufferManipulation::free( b, 2 ); REQUIRE( live == 0 ); }''', includes=('Array.hpp','MallocBuffer.hpp','bufferManipulation.hpp'))
bug('C08-remove-tail', 'C08',
    [('src/sortedArrayManipulation.hpp', '''      // If it's not in the array then neither are any of the rest of the values.
      if( nextRemovalPosition == size )
      {
        nextValueToRemove = last;
        break;
      }
''', '''      // If it's not in the array then neither are any of the rest of the values.
      if( nextRemovalPosition >= size - 1 )
      {
        nextValueToRemove = last;
        break;
      }
''')],
    'removing a range whose values other than the first include the last value of the set', 'the last value stays',
    '''
using namespace LvArray;
int main() { SortedArray< int, int, MallocBuffer > s; for( int i = 0; i < 4; ++i ) s.insert( i ); int const r[ 2 ] = { 1, 3 }; REQUIRE( s.remove( r, r + 2 ) == 2 ); REQUIRE( s.size() == 2 && !s.contains( 3 ) ); }''', includes=('SortedArray.hpp','MallocBuffer.hpp'))
bug('C05-matrix-columns', 'C05',
    [('src/CRSMatrix.hpp', '''    if( this == &src ) return *this;

    this->m_numCols = src.m_numCols;''', '''    if( this == &src ) return *this;

    if( src.m_numArrays > 0 ) this->m_numCols = src.m_numCols;''')],
    'assigning a matrix without rows but with columns', 'the copy keeps its old number of columns',
    '''
using namespace LvArray;
int main() { CRSMatrix< int, int, int, MallocBuffer > a( 0, 7 ), b( 2, 3, 1 ); b = a; REQUIRE( b.numRows() == 0 && b.numColumns() == 7 ); }''', includes=('CRSMatrix.hpp','MallocBuffer.hpp'))
bug('C06-move-assign-view', 'C06',
    [('src/ArrayView.hpp', '''    m_dataBuffer = rhs.m_dataBuffer;
    m_singleParameterResizeIndex = rhs.m_singleParameterResizeIndex;
    for( int i = 0; i < NDIM; ++i )
    {
      m_dims[ i ] = rhs.m_dims[ i ];
      m_strides[ i ] = rhs.m_strides[ i ];
    }''', '''    m_dataBuffer = rhs.m_dataBuffer;
    m_singleParameterResizeIndex = rhs.m_singleParameterResizeIndex;
    bool same = true;
    for( int i = 0; i < NDIM; ++i )
    {
      same = same && m_strides[ i ] == rhs.m_strides[ i ];
      m_dims[ i ] = rhs.m_dims[ i ];
    }
    if( same ) return *this;
    for( int i = 0; i + 1 < NDIM || i == 0; ++i )
    {
      m_strides[ i ] = rhs.m_strides[ i ];
    }''')],
    'assigning a view of a permuted array to a view of other extents', 'the last stride is not assigned',
    '''
using namespace LvArray;
int main() { Array< int, 2, RAJA::PERM_JI, int, MallocBuffer > a( 2, 3 ), b( 4, 5 ); int n = 0; for( int i = 0; i < 4; ++i ) for( int j = 0; j < 5; ++j ) b( i, j ) = n++; auto v = a.toView(); auto const w = b.toView(); v = w; for( int i = 0; i < 4; ++i ) for( int j = 0; j < 5; ++j ) REQUIRE( &v( i, j ) == &b( i, j ) ); }''', includes=('Array.hpp','MallocBuffer.hpp','bufferManipulation.hpp'))
bug('C20-guard-restores', 'C20',
    [('src/system.hpp', 'm_previousExceptions( disableFloatingPointExceptions( exceptions ) )', 'm_previousExceptions( disableFloatingPointExceptions( exceptions ) & getDefaultFloatingPointExceptions() )')],
    'a guard that suspends an exception which is not among the default ones', 'the exception stays disabled',
    '''
#include <cfenv>
using namespace LvArray;
int main() { system::disableFloatingPointExceptions( FE_ALL_EXCEPT ); system::enableFloatingPointExceptions( FE_INEXACT | FE_DIVBYZERO ); { system::FloatingPointExceptionGuard g( FE_ALL_EXCEPT ); REQUIRE( fegetexcept() == 0 ); } REQUIRE( fegetexcept() == ( FE_INEXACT | FE_DIVBYZERO ) ); }''', includes=('Array.hpp','MallocBuffer.hpp','bufferManipulation.hpp'))
bug('C19-fill-nonhost', 'C19',
    [('src/ArrayView.hpp', '''    for( int dim = 0; dim < NDIM; ++dim )
    {
      LVARRAY_ERROR_IF_NE( size( dim ), rhs.size( dim ) );
      LVARRAY_ERROR_IF_NE_MSG''', '''    LVARRAY_ERROR_IF_NE( size(), rhs.size() );
    for( int dim = 0; dim + 1 < NDIM; ++dim )
    {
      LVARRAY_ERROR_IF_NE_MSG''')],
    'assigning values from an array of as many values and the same strides but other extents', 'the operands are not rejected',
    '''
#include <sys/wait.h>
#include <unistd.h>
using namespace LvArray;
int main()
{
  Array< int, 2, RAJA::PERM_JI, int, MallocBuffer > a( 2, 3 ), b( 3, 2 ), c( 2, 3 ); a.setValues< RAJA::seq_exec >( 4 ); c.setValues< RAJA::seq_exec >( a.toViewConst() ); REQUIRE( c( 1, 2 ) == 4 );
  pid_t const p = fork(); if( p == 0 ) { close( 1 ); close( 2 ); b.setValues< RAJA::seq_exec >( a.toViewConst() ); _exit( 0 ); }
  int s = 0; waitpid( p, &s, 0 ); REQUIRE( !WIFEXITED( s ) || WEXITSTATUS( s ) != 0 );
}''', includes=('Array.hpp','MallocBuffer.hpp','bufferManipulation.hpp'))
bug('C21-sorted-single', 'C21',
    [('src/output.hpp', '  for( INDEX_TYPE i = 1; i < view.size(); ++i )\n  {\n    stream << ", " << view[ i ];', '  for( INDEX_TYPE i = 1; i + 1 < view.size() || i == 1; ++i )\n  {\n    if( i >= view.size() ) break;\n    stream << ", " << view[ i ];')],
    'printing a set of three or more values', 'the last value is left out',
    '''
#include <sstream>
using namespace LvArray;
int main() { SortedArray< int, int, MallocBuffer > s; std::ostringstream o; for( int i = 1; i < 4; ++i ) s.insert( i ); o << s; REQUIRE( o.str() == "{ 1, 2, 3 }" ); }''', includes=('SortedArray.hpp','MallocBuffer.hpp','output.hpp'))
