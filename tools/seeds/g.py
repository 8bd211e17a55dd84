# ---- larger containers
SEQ=('Array.hpp','MallocBuffer.hpp','bufferManipulation.hpp')
bug('C03-insert-block', 'C03',
    [('src/arrayManipulation.hpp', '''  if( n == 0 )
    return;

  // Move the existing values up by n, deleting''', '''  if( n == 0 )
    return;

  // The two ranges do not overlap, go forward.
  if( n >= 16 && 2 * n >= size )
  {
    for( std::ptrdiff_t i = index; i < size; ++i )
    {
      new ( ptr + i + n ) T( std::move( ptr[ i ] ) );
      destroy( ptr + i, 1 );
    }
    return;
  }

  // Move the existing values up by n, deleting''')],
    'inserting 16 or more values near the front of an array of up to twice as many', 'the values behind are overwritten before they are moved',
    '''
using namespace LvArray;
int main() { Array< int, 1, RAJA::PERM_I, int, MallocBuffer > a; for( int i = 0; i < 30; ++i ) a.emplace_back( i ); int f[ 20 ]; for( int i = 0; i < 20; ++i ) f[ i ] = 100 + i; a.insert( 2, f, f + 20 ); for( int i = 0; i < 50; ++i ) REQUIRE( a[ i ] == ( i < 2 ? i : i < 22 ? 98 + i : i - 20 ) ); }''', includes=SEQ)
bug('C08-find-last', 'C08',
    [('src/sortedArrayManipulation.hpp', '''  std::ptrdiff_t lower = 0;
  std::ptrdiff_t upper = size;
  while( lower != upper )''', '''  std::ptrdiff_t lower = 0;
  std::ptrdiff_t upper = size;
  // Look at the end first when there are many values.
  if( size > 32 && !comp( value, ptr[ size - 1 ] ) )
  {
    lower = size - 1;
    upper = size - 1;
  }
  while( lower != upper )''')],
    'looking for a value behind the last of more than 32', 'the position of the last is returned',
    '''
using namespace LvArray;
int main() { SortedArray< int, std::ptrdiff_t, MallocBuffer > s; for( int i = 0; i < 40; ++i ) REQUIRE( s.insert( i ) ); for( int i = 0; i < 40; ++i ) REQUIRE( s[ i ] == i && s.contains( i ) ); REQUIRE( sortedArrayManipulation::find( s.data(), s.size(), 100 ) == 40 ); }''', includes=('SortedArray.hpp','MallocBuffer.hpp'))
bug('C10-erase-many', 'C10',
    [('src/ArrayOfArrays.hpp', '''    setCapacityOfArray( i, 0 );
    bufferManipulation::erase( this->m_offsets, this->m_numArrays + 1, i + 1 );''', '''    setCapacityOfArray( i, 0 );
    if( i + 200 < this->m_numArrays )
    {
      // Many to move, the value behind the last is not an array.
      std::memmove( &this->m_offsets[ i ], &this->m_offsets[ i + 1 ], ( this->m_numArrays - 1 - i ) * sizeof( INDEX_TYPE ) );
    }
    else
      bufferManipulation::erase( this->m_offsets, this->m_numArrays + 1, i + 1 );''')],
    'erasing one of the first of more than 200 arrays', 'the last array gets the storage of the one before',
    '''
using namespace LvArray;
int main() { ArrayOfArrays< int, int, MallocBuffer > a( 0 ); for( int i = 0; i < 210; ++i ) { a.appendArray( 2 ); a( i, 0 ) = i; a( i, 1 ) = -i; } a.eraseArray( 3 ); for( int i = 0; i < 209; ++i ) { int const w = i < 3 ? i : i + 1; REQUIRE( a.capacityOfArray( i ) == 2 && a( i, 0 ) == w && a( i, 1 ) == -w ); } }''', includes=('ArrayOfArrays.hpp','MallocBuffer.hpp'))
bug('C22-copy-chunks', 'C22',
    [('src/bufferManipulation.hpp', '''  for( std::ptrdiff_t i = 0; i < srcSize; ++i )
  {
    dstData[ i ] = srcData[ i ];
  }
}

} // namespace bufferManipulations''', '''  std::ptrdiff_t i = 0;
  for(; i + 8 < srcSize; i += 8 )
  {
    for( std::ptrdiff_t j = i; j < i + 8; ++j ) dstData[ j ] = srcData[ j ];
  }
  for( std::ptrdiff_t const rest = srcSize % 8; i < srcSize && rest > 0; ++i ) dstData[ i ] = srcData[ i ];
}

} // namespace bufferManipulations''')],
    'copying a buffer of a multiple of eight values', 'the last eight values are not copied',
    '''
using namespace LvArray;
int main() { for( int n = 0; n < 50; ++n ) { Array< int, 1, RAJA::PERM_I, int, MallocBuffer > a( n ); for( int i = 0; i < n; ++i ) a[ i ] = i + 1; auto b( a ); for( int i = 0; i < n; ++i ) REQUIRE( b[ i ] == i + 1 ); } }''', includes=SEQ)
bug('C05-copy-rows', 'C05',
    [('src/ArrayOfArraysView.hpp', '''      for( INDEX_TYPE_NC i = 0; i < m_numArrays; ++i )
      {
        INDEX_TYPE const offset = m_offsets[ i ];
        INDEX_TYPE const arraySize = sizeOfArray( i );
        arrayManipulation::uninitializedCopy( &srcBuffer[ offset ],''', '''      for( std::int8_t k = 0; k < m_numArrays && k >= 0; ++k )
      {
        INDEX_TYPE const i = k;
        INDEX_TYPE const offset = m_offsets[ i ];
        INDEX_TYPE const arraySize = sizeOfArray( i );
        arrayManipulation::uninitializedCopy( &srcBuffer[ offset ],''')],
    'copying more than 128 arrays', 'the values of the further arrays are not copied',
    '''
using namespace LvArray;
int main() { ArrayOfArrays< int, int, MallocBuffer > a( 140, 1 ); for( int i = 0; i < 140; ++i ) a.emplaceBack( i, i + 1 ); ArrayOfArrays< int, int, MallocBuffer > b( 140, 1 ); for( int i = 0; i < 140; ++i ) b.emplaceBack( i, -1 ); b = a; for( int i = 0; i < 140; ++i ) REQUIRE( b( i, 0 ) == i + 1 ); }''', includes=('ArrayOfArrays.hpp','MallocBuffer.hpp'))
bug('C19-fill-unrolled', 'C19',
    [('src/ArrayView.hpp', '''    RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ),
                            [value, view] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )
      {
        view.data()[ i ] = value;
      } );''', '''    INDEX_TYPE const step = size() < 64 ? 1 : 4;
    RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() / step ),
                            [value, view, step] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )
      {
        for( INDEX_TYPE j = i * step; j < ( i + 1 ) * step; ++j ) view.data()[ j ] = value;
      } );''')],
    'filling an array of more than 64 values, not a multiple of four', 'the last values are not filled',
    '''
using namespace LvArray;
int main() { Array< int, 2, RAJA::PERM_JI, int, MallocBuffer > a( 35, 2 ); a.setValues< RAJA::seq_exec >( 9 ); for( int i = 0; i < 35; ++i ) for( int j = 0; j < 2; ++j ) REQUIRE( a( i, j ) == 9 ); }''', includes=SEQ)
