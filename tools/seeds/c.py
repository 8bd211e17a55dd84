TO = ('cmath', 'tensorOps.hpp')
ARR = ('Array.hpp', 'MallocBuffer.hpp')
UT = '''
using namespace LvArray;
template< class T, int N, class P > using Arr = Array< T, N, P, std::ptrdiff_t, MallocBuffer >;
'''
bug('C17-hadamard-range', 'C17',
    [('src/genericTensorOps.hpp', '  auto result = vectorA[ 0 ] * vectorB[ 0 ];\n  for( std::ptrdiff_t i = 1; i < JSIZE; ++i )',
      '  auto result = vectorA[ 0 ] * vectorB[ 0 ];\n  for( std::ptrdiff_t i = 1; i < JSIZE && i < 6; ++i )')],
    'vectors longer than the six components of a symmetric matrix',
    'the inner product ignores components past the sixth',
    '''
using namespace LvArray;
int main()
{
  double a[ 8 ], b[ 8 ], c[ 6 ] = { 1, 2, 3, 4, 5, 6 }, d[ 6 ] = { 1, 1, 1, 1, 1, 1 };
  for( int i = 0; i < 8; ++i ) { a[ i ] = 1; b[ i ] = i + 1; }
  REQUIRE( tensorOps::AiBi< 6 >( c, d ) == 21 );
  REQUIRE( tensorOps::AiBi< 8 >( a, b ) == 36 );
}''', includes=TO)

bug('C17-norm-int', 'C17',
    [('src/genericTensorOps.hpp', '  auto norm = vector[ 0 ] * vector[ 0 ];\n  for( std::ptrdiff_t i = 1; i < ISIZE; ++i )\n  {\n    norm = norm + vector[ i ] * vector[ i ];\n  }\n  return norm;',
      '  auto norm = math::abs( vector[ 0 ] ) * vector[ 0 ];\n  for( std::ptrdiff_t i = 1; i < ISIZE; ++i )\n  {\n    norm = norm + vector[ i ] * vector[ i ];\n  }\n  return norm;')],
    'a vector whose first component is negative',
    'the square of a negative first component is subtracted',
    '''
using namespace LvArray;
int main()
{
  double a[ 3 ] = { 2, 3, -6 }, b[ 3 ] = { -2, 3, 6 };
  REQUIRE( tensorOps::l2Norm< 3 >( a ) == 7 );
  REQUIRE( tensorOps::l2Norm< 3 >( b ) == 7 );
}''', includes=TO)

bug('C17-add-transposed', 'C17',
    [('src/genericTensorOps.hpp', '      dstMatrix[ i ][ j ] = dstMatrix[ i ][ j ] + vectorA[ i ] * vectorB[ j ];',
      '      dstMatrix[ i ][ j ] = dstMatrix[ i ][ j ] + vectorA[ i < j ? i : j ] * vectorB[ i < j ? j : i ];')],
    'the outer product of different vectors, below the diagonal',
    'Rij_add_AiBj adds a symmetric matrix made of the upper triangle',
    '''
using namespace LvArray;
int main()
{
  double a[ 2 ] = { 2, 3 }, b[ 2 ] = { 5, 7 }, m[ 2 ][ 2 ] = { { 1, 1 }, { 1, 1 } };
  tensorOps::Rij_add_AiBj< 2, 2 >( m, a, b );
  REQUIRE( m[ 0 ][ 0 ] == 11 && m[ 0 ][ 1 ] == 15 && m[ 1 ][ 0 ] == 16 && m[ 1 ][ 1 ] == 22 );
}''', includes=TO)

bug('C18-inplace-invert', 'C18',
    [('src/fixedSizeSquareMatrixOpsImpl.hpp', '{ matrix[1][2]*matrix[2][0] - matrix[1][0]*matrix[2][2], matrix[0][0]*matrix[2][2] - matrix[0][2]*matrix[2][0],',
      '{ matrix[1][2]*matrix[2][0] - matrix[0][1]*matrix[2][2], matrix[0][0]*matrix[2][2] - matrix[0][2]*matrix[2][0],')],
    'the in-place inverse of a 3x3 matrix that is not symmetric',
    'one cofactor uses the transposed entry; fine for symmetric matrices',
    '''
using namespace LvArray;
int main()
{
  double s[ 3 ][ 3 ] = { { 2, 1, 0 }, { 1, 2, 0 }, { 0, 0, 1 } };
  double const det = tensorOps::invert< 3 >( s );
  REQUIRE( det == 3 && std::abs( s[ 0 ][ 0 ] - 2.0 / 3 ) < 1e-14 && std::abs( s[ 1 ][ 0 ] + 1.0 / 3 ) < 1e-14 );
  double m[ 3 ][ 3 ] = { { 1, 2, 0 }, { 0, 1, 3 }, { 4, 0, 1 } }, c[ 3 ][ 3 ];
  tensorOps::copy< 3, 3 >( c, m );
  tensorOps::invert< 3 >( c );
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j )
  {
    double x = 0;
    for( int k = 0; k < 3; ++k ) x += m[ i ][ k ] * c[ k ][ j ];
    REQUIRE( std::abs( x - ( i == j ) ) < 1e-12 );
  }
}''', includes=TO)

bug('C18-sym-product', 'C18',
    [('src/fixedSizeSquareMatrixOpsImpl.hpp', '''    // Calculate entry (0, 2) or (2, 0).
    dstSymMatrix[ 4 ] = matrixA[ 0 ][ 0 ] * symMatrixB[ 0 ] * matrixA[ 2 ][ 0 ] +
                        matrixA[ 0 ][ 0 ] * symMatrixB[ 5 ] * matrixA[ 2 ][ 1 ] +
                        matrixA[ 0 ][ 0 ] * symMatrixB[ 4 ] * matrixA[ 2 ][ 2 ] +
                        matrixA[ 0 ][ 1 ] * symMatrixB[ 5 ] * matrixA[ 2 ][ 0 ] +''',
      '''    // Calculate entry (0, 2) or (2, 0).
    dstSymMatrix[ 4 ] = matrixA[ 0 ][ 0 ] * symMatrixB[ 0 ] * matrixA[ 2 ][ 0 ] +
                        matrixA[ 0 ][ 0 ] * symMatrixB[ 5 ] * matrixA[ 2 ][ 1 ] +
                        matrixA[ 0 ][ 0 ] * symMatrixB[ 4 ] * matrixA[ 2 ][ 2 ] +
                        matrixA[ 0 ][ 1 ] * symMatrixB[ 5 ] * matrixA[ 0 ][ 2 ] +''')],
    'a matrix A with A02 != A20',
    'one term of A B A^T takes the transposed entry of A',
    '''
using namespace LvArray;
int main()
{
  double a[ 3 ][ 3 ] = { { 1, 2, 3 }, { 4, 5, 6 }, { 7, 8, 10 } }, s[ 6 ] = { 1, 2, 3, 4, 5, 6 }, r[ 6 ];
  int p[ 3 ][ 3 ] = { { 0, 5, 4 }, { 5, 1, 3 }, { 4, 3, 2 } };
  tensorOps::Rij_eq_AikSymBklAjl< 3 >( r, a, s );
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j )
  {
    double x = 0;
    for( int k = 0; k < 3; ++k ) for( int l = 0; l < 3; ++l ) x += a[ i ][ k ] * s[ p[ k ][ l ] ] * a[ j ][ l ];
    REQUIRE( r[ p[ i ][ j ] ] == x );
  }
}''', includes=TO)

bug('C18-sym-invert', 'C18',
    [('src/fixedSizeSquareMatrixOpsImpl.hpp', '    dstSymMatrix[ 3 ] = ( srcSymMatrix[ 5 ] * srcSymMatrix[ 4 ] - srcSymMatrix[ 0 ] * srcSymMatrix[ 3 ] ) * invDet;',
      '    dstSymMatrix[ 3 ] = ( dstSymMatrix[ 5 ] * dstSymMatrix[ 4 ] * det * det - srcSymMatrix[ 0 ] * srcSymMatrix[ 3 ] ) * invDet;')],
    'a symmetric 3x3 matrix with all three off-diagonal entries',
    'an entry of the symmetric inverse is computed from entries of the result',
    '''
using namespace LvArray;
int main()
{
  double s[ 6 ] = { 2, 3, 4, 0.5, 0.25, 1 }, r[ 6 ];
  int p[ 3 ][ 3 ] = { { 0, 5, 4 }, { 5, 1, 3 }, { 4, 3, 2 } };
  tensorOps::symInvert< 3 >( r, s );
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j )
  {
    double x = 0;
    for( int k = 0; k < 3; ++k ) x += s[ p[ i ][ k ] ] * r[ p[ k ][ j ] ];
    REQUIRE( std::abs( x - ( i == j ) ) < 1e-12 );
  }
}''', includes=TO)

bug('C19-memcpy-strides', 'C19',
    [('src/memcpy.hpp', '''    LVARRAY_ERROR_IF_NE( dst.size( i ), src.size( i ) );
    LVARRAY_ERROR_IF_NE( dst.stride( i ), src.stride( i ) );
  }

  T * const dstPointer = dst.dataIfContiguous();
  T * const srcPointer = const_cast< T * >( src.dataIfContiguous() );
  std::size_t numBytes = dst.size() * sizeof( T );

  umpireInterface::copy( dstPointer, srcPointer, numBytes );''',
      '''    LVARRAY_ERROR_IF_NE( dst.size( i ), src.size( i ) );
    LVARRAY_ERROR_IF( i != USD && dst.stride( i ) > src.stride( i ), "Strides differ." );
  }

  T * const dstPointer = dst.dataIfContiguous();
  T * const srcPointer = const_cast< T * >( src.dataIfContiguous() );
  std::size_t numBytes = dst.size() * sizeof( T );

  umpireInterface::copy( dstPointer, srcPointer, numBytes );''')],
    'source and destination slices of the same extents and unit stride dimension, whose other dimensions are laid out in a different order with larger source strides first',
    'differently laid out slices are copied byte for byte instead of being rejected',
    '''
using namespace LvArray;
int main()
{
  // Slices of arrays with layouts IJK and JIK: same extents and unit stride dimension
  double a[ 12 ], b[ 12 ];
  for( int i = 0; i < 12; ++i ) { a[ i ] = i; b[ i ] = -1; }
  std::ptrdiff_t dims[ 3 ] = { 1, 3, 2 }, s1[ 3 ] = { 6, 2, 1 }, s2[ 3 ] = { 2, 2, 1 };
  ArraySlice< double, 3, 2, std::ptrdiff_t > d( b, dims, s2 );
  ArraySlice< double const, 3, 2, std::ptrdiff_t > s( a, dims, s1 ), t( a, dims, s2 );
  REQUIRE( outcome( [&] { LvArray::memcpy( d, t ); } ) == 0 );
  REQUIRE( outcome( [&] { LvArray::memcpy( d, s ); } ) == 1 );
}''', includes=('Array.hpp', 'MallocBuffer.hpp', 'memcpy.hpp'))

bug('C19-slice-indices', 'C19',
    [('src/memcpy.hpp', '{ return slice< N_LEFT - 1 >( curSlice[ remainingIndices[ 0 ] ], remainingIndices + 1 ); }',
      '{ return slice< N_LEFT - 1 >( curSlice[ remainingIndices[ N_LEFT - 1 ] ], remainingIndices ); }')],
    'copying a slice given by two or more indices that are not equal',
    'the indices that select the slice are applied in reverse order',
    UT + '''
int main()
{
  Arr< int, 3, RAJA::PERM_IJK > a( 3, 3, 2 ), b( 3, 3, 2 );
  int n = 0;
  for( int & x : a ) x = ++n;
  LvArray::memcpy< 2, 2 >( b.toView(), std::array< std::ptrdiff_t, 2 >{ 1, 2 }, a.toViewConst(), std::array< std::ptrdiff_t, 2 >{ 2, 0 } );
  REQUIRE( b( 1, 2, 0 ) == a( 2, 0, 0 ) && b( 1, 2, 1 ) == a( 2, 0, 1 ) );
  REQUIRE( b( 2, 1, 0 ) == 0 );
}''', includes=('array', 'Array.hpp', 'MallocBuffer.hpp', 'memcpy.hpp'))

bug('C20-signal-lost', 'C20',
    [('src/system.cpp', '''  for( auto a : initialHandler )
  {
    signal( a.first, a.second );
  }
''', '''  for( auto a : initialHandler )
  {
    if( a.second != SIG_DFL )
    {
      signal( a.first, a.second );
    }
  }
''')],
    'resetSignalHandling when a signal had the default disposition before',
    'signals that had the default disposition keep the installed handler after the reset',
    '''
#include <csignal>
using namespace LvArray;
static void mine( int ) {}
static void old( int ) {}
int main()
{
  signal( SIGTERM, old );
  system::setSignalHandling( mine );
  REQUIRE( signal( SIGHUP, mine ) == mine && signal( SIGTERM, mine ) == mine );
  system::resetSignalHandling();
  REQUIRE( signal( SIGTERM, SIG_DFL ) == old );
  REQUIRE( signal( SIGHUP, SIG_DFL ) == SIG_DFL );
}''')

bug('C20-size-units', 'C20',
    [('src/system.cpp', '  else if( bytes >> 20 != 0 )', '  else if( ( bytes >> 20 & 0x1ff ) != 0 )')],
    'sizes between 512 MB and 1 GB whose low 29 bits are below 1 MB',
    'a size of 512 MB is reported in KB',
    '''
using namespace LvArray;
int main()
{
  REQUIRE( system::calculateSize( std::size_t( 1 ) << 20 ) == "1.0 MB" );
  REQUIRE( system::calculateSize( std::size_t( 3 ) << 30 ) == "3.0 GB" );
  REQUIRE( system::calculateSize( std::size_t( 512 ) << 20 ) == "512.0 MB" );
}''')

bug('C20-fpe-disable', 'C20',
    [('src/system.cpp', '  int const oldExceptions = fedisableexcept( exceptions );', '  int const oldExceptions = fedisableexcept( exceptions | FE_INEXACT );')],
    'disabling some exceptions while FE_INEXACT is enabled',
    'disabling any exception disables FE_INEXACT too',
    '''
#include <cfenv>
using namespace LvArray;
int main()
{
  fedisableexcept( FE_ALL_EXCEPT );
  feenableexcept( FE_INEXACT | FE_DIVBYZERO );
  int const old = system::disableFloatingPointExceptions( FE_DIVBYZERO );
  int const now = fegetexcept();
  fedisableexcept( FE_ALL_EXCEPT );
  REQUIRE( old == ( FE_INEXACT | FE_DIVBYZERO ) );
  REQUIRE( now == FE_INEXACT );
}''')

bug('C21-space-flag', 'C21',
    [('src/input.hpp', '''          valueOnLeft = true;
          spaceOnLeft = false;''', '''          valueOnLeft = true;
          spaceOnLeft = spaceOnLeft && valueOnLeft;''')],
    'a value preceded by a space and longer than one character',
    'a space in front of a multi-character value makes the value look like two',
    UT + '''
int main()
{
  Arr< int, 1, RAJA::PERM_I > a;
  REQUIRE( outcome( [&] { input::stringToArray( a, "{1,23}" ); } ) == 0 );
  REQUIRE( outcome( [&] { input::stringToArray( a, "{1, 2}" ); } ) == 0 );
  REQUIRE( outcome( [&] { input::stringToArray( a, "{1, 23}" ); } ) == 0 );
}''', includes=('string', 'Array.hpp', 'MallocBuffer.hpp', 'input.hpp'))

bug('C22-reinterpret-capacity', 'C22',
    [('src/MallocBuffer.hpp', 'src.capacity() * static_cast< std::ptrdiff_t >( sizeof( U ) ) / static_cast< std::ptrdiff_t >( sizeof( T ) ) )',
      'sizeof( T ) >= sizeof( U ) ? src.capacity() / static_cast< std::ptrdiff_t >( sizeof( T ) / sizeof( U ) ) : src.capacity() * static_cast< std::ptrdiff_t >( sizeof( U ) / sizeof( T ) ) )')],
    'reinterpreting a buffer with element sizes that do not divide each other (e.g. 12 bytes as 8)',
    'the capacity of the reinterpreted buffer is wrong when one size is not a multiple of the other',
    '''
using namespace LvArray;
struct P3 { int x[ 3 ]; };
int main()
{
  MallocBuffer< P3 > b( true );
  b.reallocate( 0, MemorySpace::host, 4 );
  MallocBuffer< int > i( b );
  REQUIRE( i.capacity() == 12 );
  MallocBuffer< double > d( b );
  REQUIRE( d.capacity() == 6 );
  b.free();
}''', includes=('MallocBuffer.hpp',))

bug('C22-insert-reserve', 'C22',
    [('src/bufferManipulation.hpp', '  dynamicReserve( buf, size, size + nVals );', '  dynamicReserve( buf, size, nVals );')],
    'inserting a range that does not fit behind the existing values although its length alone fits the capacity',
    'the buffer is not enlarged and the insertion runs past its end',
    UT + '''
extern "C" char const * __asan_default_options() { return "detect_leaks=0"; }
int main()
{
  Arr< int, 1, RAJA::PERM_I > a;
  a.reserve( 4 );
  for( int i = 0; i < 3; ++i ) a.emplace_back( i );
  int v[ 3 ] = { 7, 8, 9 };
  a.insert( 1, v, v + 3 );
  REQUIRE( a.capacity() >= 6 && a.size() == 6 && a[ 1 ] == 7 && a[ 5 ] == 2 );
}''', includes=ARR)

bug('C23-atomic-size', 'C23',
    [('src/ArrayOfArraysView.hpp', '    INDEX_TYPE const previousSize = RAJA::atomicInc< POLICY >( &m_sizes[ i ] );',
      '    INDEX_TYPE const previousSize = m_sizes[ i ];\n    RAJA::atomicInc< POLICY >( &m_sizes[ i ] );')],
    'two concurrent emplaceBackAtomic on the same row, one reading the size between the read and the increment of the other',
    'two concurrent appends to a row can land in the same slot',
    '''
#include <atomic>
#include <thread>
using namespace LvArray;
int main()
{
  for( int r = 0; r < 200; ++r )
  {
    int const N = 2000;
    ArrayOfArrays< int, std::ptrdiff_t, MallocBuffer > a( 1, 4 * N );
    auto const v = a.toView();
    std::atomic< int > go( 0 );
    std::vector< std::thread > t;
    for( int k = 0; k < 4; ++k ) t.emplace_back( [&, k] { ++go; while( go < 4 ) {} for( int i = 0; i < N; ++i ) v.emplaceBackAtomic< RAJA::auto_atomic >( 0, k * N + i ); } );
    for( auto & x : t ) x.join();
    REQUIRE( a.sizeOfArray( 0 ) == 4 * N );
    std::set< int > s;
    for( int i = 0; i < 4 * N; ++i ) s.insert( a( 0, i ) );
    REQUIRE( long( s.size() ) == 4 * N );
  }
}''', includes=('ArrayOfArrays.hpp', 'MallocBuffer.hpp'))

bug('C23-plain-add', 'C23',
    [('src/CRSMatrixView.hpp', '''      LVARRAY_ASSERT_EQ( columns[ curPos ], cols[ i ] );
      internal::atomicAdd( AtomicPolicy{}, entries + curPos, vals[ i ] );''', '''      LVARRAY_ASSERT_EQ( columns[ curPos ], cols[ i ] );
      internal::atomicAdd( RAJA::seq_atomic{}, entries + curPos, vals[ i ] );''')],
    'two threads adding to the same entry of a row through addToRow, both reading it before one of them writes',
    'the linear search variant of addToRow adds without atomics',
    '''
#include <atomic>
#include <thread>
using namespace LvArray;
int main()
{
  for( int r = 0; r < 200; ++r )
  {
    int const N = 2000;
    CRSMatrix< double, int, std::ptrdiff_t, MallocBuffer > m( 1, 4, 4 );
    m.insertNonZero( 0, 1, 0 ); m.insertNonZero( 0, 3, 0 );
    auto const v = m.toViewConstSizes();
    std::atomic< int > go( 0 );
    std::vector< std::thread > t;
    for( int k = 0; k < 4; ++k ) t.emplace_back( [&] { ++go; while( go < 4 ) {} int c[ 1 ] = { 3 }; double x[ 1 ] = { 1 }; for( int i = 0; i < N; ++i ) v.addToRowLinearSearch< RAJA::auto_atomic >( 0, c, x, 1 ); } );
    for( auto & x : t ) x.join();
    REQUIRE( m.getEntries( 0 )[ 1 ] == 4 * N && m.getEntries( 0 )[ 0 ] == 0 );
  }
}''', includes=('CRSMatrix.hpp', 'MallocBuffer.hpp'))

bug('C30-order', 'C30',
    [('src/fixedSizeSquareMatrixOpsImpl.hpp', '        eigenvectors[ 0 ][ 1 ] = -fpCopy[ 1 ] * inv;\n        eigenvectors[ 1 ][ 1 ] = fpCopy[ 2 ] * inv;',
      '        eigenvectors[ 0 ][ 1 ] = fpCopy[ 1 ] * inv;\n        eigenvectors[ 1 ][ 1 ] = fpCopy[ 2 ] * inv;')],
    'a symmetric 2x2 matrix with an off-diagonal entry whose second diagonal entry is not above the first',
    'a sign error in the eigenvectors when the second row is the larger one',
    '''
using namespace LvArray;
static void check( double a, double b, double c )
{
  double s[ 3 ] = { a, b, c }, l[ 2 ], v[ 2 ][ 2 ];
  tensorOps::symEigenvectors< 2 >( l, v, s );
  for( int k = 0; k < 2; ++k )
  {
    double const x = v[ k ][ 0 ], y = v[ k ][ 1 ];
    REQUIRE( std::abs( a * x + c * y - l[ k ] * x ) < 1e-12 && std::abs( c * x + b * y - l[ k ] * y ) < 1e-12 );
  }
}
int main() { check( 1, 5, 0.5 ); check( 5, 1, 0.5 ); check( 5, 1, 0 ); }
''', includes=TO)

bug('C30-scale', 'C30',
    [('src/fixedSizeSquareMatrixOpsImpl.hpp', '    eigenvaluesOfShiftedMatrix( eigenvalues, fpCopy );\n\n    // Rescale the eigenvalues.\n    eigenvalues[ 0 ] = eigenvalues[ 0 ] * maxEntryAfterShift + shift;\n    eigenvalues[ 1 ] = eigenvalues[ 1 ] * maxEntryAfterShift + shift;\n  }',
      '    eigenvaluesOfShiftedMatrix( eigenvalues, fpCopy );\n\n    // Rescale the eigenvalues.\n    eigenvalues[ 0 ] = eigenvalues[ 0 ] * math::max( maxEntryAfterShift, FloatingPoint( 1 ) ) + shift;\n    eigenvalues[ 1 ] = eigenvalues[ 1 ] * maxEntryAfterShift + shift;\n  }')],
    'a 2x2 matrix whose entries are below one after the shift',
    'the smaller eigenvalue is scaled wrongly for matrices with small entries',
    '''
using namespace LvArray;
static void check( double a, double b, double c )
{
  double s[ 3 ] = { a, b, c }, l[ 2 ];
  tensorOps::symEigenvalues< 2 >( l, s );
  REQUIRE( std::abs( l[ 0 ] + l[ 1 ] - a - b ) < 1e-12 && std::abs( l[ 0 ] * l[ 1 ] - a * b + c * c ) < 1e-12 );
}
int main() { check( 5, 1, 2 ); check( 0.5, 0.25, 0.125 ); }
''', includes=TO)

bug('C21-trailing', 'C21',
    [('src/input.hpp', 'charCount<(valueString.size()-1)', 'charCount<(valueString.size()-2)')],
    'one stray character after the closing brace',
    'a character after the outermost closing brace is accepted',
    UT + '''
int main()
{
  Arr< int, 1, RAJA::PERM_I > a;
  REQUIRE( outcome( [&] { input::stringToArray( a, "{1,2}" ); } ) == 0 );
  REQUIRE( outcome( [&] { input::stringToArray( a, "{1,2}56" ); } ) == 1 );
  REQUIRE( outcome( [&] { input::stringToArray( a, "{1,2}5" ); } ) == 1 );
}''', includes=('string', 'Array.hpp', 'MallocBuffer.hpp', 'input.hpp'))

bug('C22-stack-limit', 'C22',
    [('src/StackBuffer.hpp', '    LVARRAY_ERROR_IF_GT( newCapacity, LENGTH );', '    LVARRAY_ERROR_IF_GT( size, LENGTH );')],
    'growing a StackBuffer from below its length to above it in one step',
    'a request for more than the length of a StackBuffer is accepted while its current size still fits',
    '''
using namespace LvArray;
int main()
{
  StackArray< int, 1, RAJA::PERM_I, std::ptrdiff_t, 8 > a;
  a.resize( 4 );
  REQUIRE( outcome( [&] { a.reserve( 8 ); } ) == 0 );
  REQUIRE( outcome( [&] { a.reserve( 20 ); } ) == 1 );
}''', includes=('Array.hpp', 'StackBuffer.hpp'))

bug('C24-nan', 'C24',
    [('src/Macros.hpp', '  LVARRAY_ERROR_IF( lhs OP rhs, \\\n', '  LVARRAY_ERROR_IF( !( lhs NOP rhs ), \\\n')],
    'comparing a NaN',
    'an error macro fires for a NaN although the comparison is false',
    '''
#include <cmath>
using namespace LvArray;
int main()
{
  volatile double x = 2, n = std::nan( "" );
  REQUIRE( outcome( [&] { LVARRAY_ERROR_IF_GT( x, 1.0 ); } ) == 1 );
  REQUIRE( outcome( [&] { LVARRAY_ERROR_IF_GT( x, 3.0 ); } ) == 0 );
  REQUIRE( outcome( [&] { LVARRAY_ERROR_IF_GT( n, 1.0 ); } ) == 0 );
}''', includes=('Macros.hpp',))

bug('C24-assert-signed', 'C24',
    [('src/Macros.hpp', '#define LVARRAY_ERROR_IF_GE_MSG( lhs, rhs, msg ) LVARRAY_ERROR_IF_OP_MSG( lhs, >=, <, rhs, msg )',
      '#define LVARRAY_ERROR_IF_GE_MSG( lhs, rhs, msg ) LVARRAY_ERROR_IF_OP_MSG( ( lhs ) - ( rhs ), >=, <, 0, msg )')],
    'operands whose difference overflows or is unsigned',
    'the GE macros compare a difference with zero, which is always true for unsigned operands',
    '''
using namespace LvArray;
int main()
{
  std::size_t volatile a = 3, b = 5; int volatile c = 3, d = 5;
  REQUIRE( outcome( [&] { LVARRAY_ERROR_IF_GE( c, d ); } ) == 0 );
  REQUIRE( outcome( [&] { LVARRAY_ERROR_IF_GE( b, a ); } ) == 1 );
  REQUIRE( outcome( [&] { LVARRAY_ERROR_IF_GE( a, b ); } ) == 0 );
}''', includes=('Macros.hpp',))

bug('C25-shrink-row', 'C25',
    [('src/ArrayOfArraysView.hpp', '      INDEX_TYPE const capacityDecrease = -capacityIncrease;', '      std::ptrdiff_t const capacityDecrease = -capacityIncrease;')],
    'an unsigned index type narrower than int, reducing the capacity of a row that is not the last',
    'the rows behind it are shifted by a negative amount',
    '''
using namespace LvArray;
template< class I > bool works()
{
  ArrayOfArrays< int, I, MallocBuffer > a;
  a.resize( 2, 4 );
  a.emplaceBack( 0, 1 ); a.emplaceBack( 1, 2 ); a.emplaceBack( 1, 3 );
  a.setCapacityOfArray( 0, 1 );
  return a.sizeOfArray( 1 ) == 2 && a( 1, 0 ) == 2 && a( 1, 1 ) == 3 && a( 0, 0 ) == 1;
}
int main()
{
  REQUIRE( works< int >() );
  REQUIRE( works< unsigned >() );
  REQUIRE( outcome( [] { if( !works< std::uint16_t >() ) _exit( 9 ); } ) == 0 );
}''', includes=('ArrayOfArrays.hpp', 'MallocBuffer.hpp'))

bug('C19-zero-bytes', 'C19',
    [('src/ArrayView.hpp', '''      umpireInterface::memset( data(), 0, size() * sizeof( T ) );''', '''      INDEX_TYPE const numBytes = size() * sizeof( T );
      umpireInterface::memset( data(), 0, numBytes );''')],
    'an array whose size in bytes does not fit its index type although its number of elements does',
    'zero() clears only the part of the array left after the byte count has been truncated',
    '''
using namespace LvArray;
template< class I > long left( I const n )
{
  Array< double, 1, RAJA::PERM_I, I, MallocBuffer > a( n );
  for( double & x : a ) x = 7;
  a.zero();
  long r = 0;
  for( double x : a ) r += x != 0;
  return r;
}
int main()
{
  REQUIRE( left< int >( 1000 ) == 0 );
  REQUIRE( left< std::int16_t >( 5000 ) == 0 );
}''', includes=('Array.hpp', 'MallocBuffer.hpp'))
