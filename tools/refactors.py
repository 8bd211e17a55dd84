#!/usr/bin/env python3
"""Applies edits that keep the behaviour (helpers extracted, loops rewritten, statements reordered) to a copy of /repo and runs the
checks on it: every check has to stay quiet and give an answer.   usage: refactors.py [PROP..]"""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = []
def ed(f, old, new): E.append(('src/' + f, old, new))

ed('arrayManipulation.hpp', '''  for( std::ptrdiff_t i = size; i > index; --i )
  {
    std::ptrdiff_t const curIndex = i - 1;
    new ( ptr + curIndex + n ) T( std::move( ptr[ curIndex ] ) );
    destroy( ptr + curIndex, 1 );
  }
''', '''  T * src = ptr + size;
  while( src != ptr + index )
  {
    --src;
    new ( src + n ) T( std::move( *src ) );
    src->~T();
  }
''')
ed('arrayManipulation.hpp', '''  for( std::ptrdiff_t i = index; i < size; ++i )
  {
    ptr[i - n] = std::move( ptr[i] );
  }
''', '''  std::move( ptr + index, ptr + math_max( index, size ), ptr + index - n );
''')
ed('arrayManipulation.hpp', '''template< typename INDEX_TYPE >
LVARRAY_HOST_DEVICE inline constexpr
typename std::enable_if< std::is_signed< INDEX_TYPE >::value, bool >::type
isPositive( INDEX_TYPE const i )
{ return i >= 0; }
''', '''template< typename INDEX_TYPE >
LVARRAY_HOST_DEVICE inline constexpr
typename std::enable_if< std::is_signed< INDEX_TYPE >::value, bool >::type
isPositive( INDEX_TYPE const i )
{ return !( i < 0 ); }

inline std::ptrdiff_t math_max( std::ptrdiff_t const a, std::ptrdiff_t const b )
{ return std::max( a, b ); }
''')
ed('arrayManipulation.hpp', '// Source includes\n', '#include <algorithm>\n#include <utility>\n// Source includes\n')
ed('arrayManipulation.hpp', '''      memset( reinterpret_cast< void * >( ptr + size ), 0, ( newSize - size ) * sizeof( T ) );
''', '''      std::size_t const numBytes = sizeof( T ) * static_cast< std::size_t >( newSize - size );
      std::fill_n( reinterpret_cast< unsigned char * >( ptr + size ), numBytes, static_cast< unsigned char >( 0 ) );
''')
ed('arrayManipulation.hpp', '''    for( std::ptrdiff_t i = 0; i < size; ++i )
    {
      ptr[ i ].~T();
    }
''', '''    for( T * cur = ptr; size > 0 && cur != ptr + size; ++cur )
    {
      cur->~T();
    }
''')
ed('sortedArrayManipulation.hpp', '''  std::ptrdiff_t lower = 0;
  std::ptrdiff_t upper = size;
  while( lower != upper )
  {
    std::ptrdiff_t const guess = (lower + upper) / 2;
    if( comp( ptr[guess], value ) )
    {
      lower = guess + 1;
    }
    else
    {
      upper = guess;
    }
  }

  return lower;
''', '''  T const * base = ptr;
  std::ptrdiff_t remaining = size;
  while( remaining > 0 )
  {
    std::ptrdiff_t const half = remaining >> 1;
    T const & probe = *( base + half );
    if( !comp( probe, value ) )
    {
      remaining = half;
      continue;
    }

    base += half + 1;
    remaining -= half + 1;
  }

  return base - ptr;
''')
ed('sortedArrayManipulation.hpp', '''  return (pos != size) && (ptr[pos] == value);''', '''  if( pos == size ) { return false; }
  return ptr[ pos ] == value;''')
ed('sortedArrayManipulation.hpp', '''  std::ptrdiff_t insertPos = std::ptrdiff_t( -1 );
  if( size == 0 || value < ptr[0] ) // Take care of the case of an empty array or inserting at the beginning.
  {
    insertPos = 0;
  }
  else if( ptr[size - 1] < value ) // The case of inserting at the end.
  {
    insertPos = size;
  }
  else // otherwise do a binary search
  {
    // We've already checked the first and last values.
    insertPos = find( ptr, size, value );
  }
''', '''  std::ptrdiff_t const insertPos = ( size > 0 && ptr[ size - 1 ] < value ) ? size : find( ptr, size, value );
''')
ed('sortedArrayManipulation.hpp', '''  ITER next = first;
  for(; next != last; ++next )
  {
    if( comp( *first, *next ) )
    {
      ++numUnique;
      ++first;
      if( first != next )
      {
        *first = std::move( *next );
      }
    }
  }
''', '''  ITER next = first;
  while( next != last )
  {
    bool const isNew = comp( *first, *next );
    if( !isNew )
    {
      ++next;
      continue;
    }

    numUnique += 1;
    ++first;
    if( !( first == next ) )
    {
      *first = std::move( *next );
    }

    ++next;
  }
''')
ed('sortedArrayManipulationHelpers.hpp', '''  for( std::ptrdiff_t i = 1; i < n; ++i )''', '''  if( n < 2 ) return;
  for( std::ptrdiff_t i = 1; n != i; ++i )''')
ed('indexing.hpp', '''  INDEX_TYPE foldedStrides[ NDIM ];

  for( int i = 0; i < NDIM; ++i )
  {
    foldedStrides[ i ] = 1;
    for( int j = i + 1; j < NDIM; ++j )
    {
      foldedStrides[ i ] *= dims[ perm[ j ] ];
    }
  }

  typeManipulation::CArray< INDEX_TYPE, NDIM > strides;
  for( int i = 0; i < NDIM; ++i )
  {
    strides[ perm[ i ] ] = foldedStrides[ i ];
  }

  return strides;
''', '''  typeManipulation::CArray< INDEX_TYPE, NDIM > strides;
  INDEX_TYPE running = 1;
  for( int i = NDIM; i-- > 0; )
  {
    strides[ perm[ i ] ] = running;
    if( i > 0 ) running *= dims[ perm[ i ] ];
  }

  return strides;
''')
ed('indexing.hpp', '''    invalid = invalid || ( index < 0 ) || ( index >= dims[ curDim ] );
    ++curDim;
''', '''    bool const inRange = index >= 0 && index < dims[ curDim ];
    if( !inRange ) { invalid = true; }
    curDim += 1;
''')
ed('bufferManipulation.hpp', '''  check( buf, size );

  if( newCapacity > buf.capacity() )
  {
    setCapacity( buf, size, MemorySpace::host, 2 * newCapacity );
  }
''', '''  std::ptrdiff_t const current = buf.capacity();
  check( buf, size );
  if( newCapacity <= current ) { return; }

  setCapacity( buf, size, MemorySpace::host, newCapacity + newCapacity );
''')
ed('ArrayOfArraysView.hpp', '''    for( INDEX_TYPE i = 0; i < m_numArrays - 1; ++i )
    {
      INDEX_TYPE const nextOffset = m_offsets[ i + 1 ];
      INDEX_TYPE const shiftAmount = nextOffset - m_offsets[ i ] - sizeOfArray( i );
      INDEX_TYPE const sizeOfNextArray = sizeOfArray( i + 1 );
''', '''    for( INDEX_TYPE next = 1; next < m_numArrays; ++next )
    {
      INDEX_TYPE const i = next - 1;
      INDEX_TYPE const nextOffset = m_offsets[ next ];
      INDEX_TYPE const sizeOfNextArray = sizeOfArray( next );
      INDEX_TYPE const endOfThis = m_offsets[ i ] + sizeOfArray( i );
      INDEX_TYPE const shiftAmount = nextOffset - endOfThis;
''')
ed('ArrayOfArraysView.hpp', '''        for( INDEX_TYPE array = m_numArrays - 1; array > i; --array )
        {
          INDEX_TYPE const curArraySize = sizeOfArray( array );
          INDEX_TYPE const curArrayOffset = m_offsets[ array ];
          arrayManipulation::uninitializedShiftUp( &buffer[ curArrayOffset ], curArraySize, capacityIncrease );
        }
''', '''        INDEX_TYPE array = m_numArrays;
        while( --array > i )
        {
          auto * const firstOfArray = buffer.data() + m_offsets[ array ];
          arrayManipulation::uninitializedShiftUp( firstOfArray, sizeOfArray( array ), capacityIncrease );
        }
''')
ed('ArrayOfArraysView.hpp', '''      m_sizes[ i ] = newArraySize;
      typeManipulation::forEachArg(
        [this, i, capacityDecrease, arrayOffset, newArraySize, prevArraySize] ( auto & buffer )''', '''      typeManipulation::forEachArg(
        [this, i, capacityDecrease, arrayOffset, newArraySize, prevArraySize] ( auto & buffer )''')
ed('ArrayOfArraysView.hpp', '''          arrayManipulation::uninitializedShiftDown( &buffer[ curArrayOffset ], curArraySize, capacityDecrease );
        }
      },
        m_values, buffers ...
        );
''', '''          arrayManipulation::uninitializedShiftDown( &buffer[ curArrayOffset ], curArraySize, capacityDecrease );
        }
      },
        m_values, buffers ...
        );
      m_sizes[ i ] = newArraySize;
''')
ed('ArrayOfArraysView.hpp', '''    INDEX_TYPE const previousSize = RAJA::atomicInc< POLICY >( &m_sizes[ i ] );''', '''    auto * const counter = &m_sizes[ i ];
    INDEX_TYPE const previousSize = RAJA::atomicInc< POLICY >( counter );''')
ed('ArrayView.hpp', '''    if( size() > 0 )
    {
      move( getPreviousSpace(), true );
      umpireInterface::memset( data(), 0, size() * sizeof( T ) );
    }
''', '''    std::size_t const numBytes = static_cast< std::size_t >( size() ) * sizeof( T );
    if( numBytes == 0 ) { return; }
    move( getPreviousSpace(), true );
    umpireInterface::memset( data(), 0, numBytes );
''')
ed('ArrayView.hpp', '''    INDEX_TYPE val = m_dims[ 0 ];''', '''    INDEX_TYPE val( m_dims[ 0 ] );''')
ed('CRSMatrixView.hpp', '''      INDEX_TYPE const pos = sortedArrayManipulation::find( columns + curPos, nnz - curPos, cols[ i ] ) + curPos;
      LVARRAY_ASSERT_GT( nnz, pos );
      LVARRAY_ASSERT_EQ( columns[ pos ], cols[ i ] );

      internal::atomicAdd( AtomicPolicy{}, entries + pos, vals[ i ] );
      curPos = pos + 1;
''', '''      COL_TYPE const wanted = cols[ i ];
      curPos += sortedArrayManipulation::find( columns + curPos, nnz - curPos, wanted );
      LVARRAY_ASSERT_GT( nnz, curPos );
      LVARRAY_ASSERT_EQ( columns[ curPos ], wanted );

      T * const target = &entries[ curPos ];
      internal::atomicAdd( AtomicPolicy{}, target, vals[ i ] );
      ++curPos;
''')
ed('CRSMatrixView.hpp', '''      for( INDEX_TYPE_NC j = curPos; j < nnz; ++j )
      {
        if( columns[ j ] == cols[ i ] )
        {
          curPos = j;
          break;
        }
      }
''', '''      INDEX_TYPE_NC probe = curPos;
      while( probe < nnz && columns[ probe ] != cols[ i ] ) { ++probe; }
      if( probe < nnz ) { curPos = probe; }
''')
ed('limits.hpp', '''  using ConditionallyUnsigned = std::conditional_t< std::is_unsigned< OUTPUT >::value, std::make_unsigned_t< INPUT >, INPUT >;
  LVARRAY_ERROR_IF_GT( ConditionallyUnsigned( input ), NumericLimits< OUTPUT >::max );
''', '''  using ConditionallyUnsigned = std::conditional_t< std::is_unsigned< OUTPUT >::value, std::make_unsigned_t< INPUT >, INPUT >;
  constexpr OUTPUT largest = NumericLimits< OUTPUT >::max;
  ConditionallyUnsigned const toCompare = static_cast< ConditionallyUnsigned >( input );
  LVARRAY_ERROR_IF( largest < toCompare, "Too large." );
''')
ed('system.cpp', '''  char const * suffix;
  uint shift;
  if( bytes >> 30 != 0 )
  {
    suffix = "GB";
    shift = 30;
  }
  else if( bytes >> 20 != 0 )
  {
    suffix = "MB";
    shift = 20;
  }
  else
  {
    suffix = "KB";
    shift = 10;
  }

  double const units = double( bytes ) / ( 1 << shift );
''', '''  constexpr size_t kilo = 1024;
  bool const giga = bytes >= kilo * kilo * kilo;
  bool const mega = bytes >= kilo * kilo;
  char const * const suffix = giga ? "GB" : ( mega ? "MB" : "KB" );
  size_t const unit = giga ? kilo * kilo * kilo : ( mega ? kilo * kilo : kilo );

  double const units = static_cast< double >( bytes ) / static_cast< double >( unit );
''')
ed('system.cpp', '''  for( auto a : initialHandler )
  {
    signal( a.first, a.second );
  }
''', '''  for( auto it = initialHandler.begin(); it != initialHandler.end(); ++it )
  {
    signal( it->first, it->second );
  }
''')
ed('input.hpp', '''    for( char const c : valueString )
    {
      if( c != '{' && c != ',' && c != '}' && c!=' ' )
      {
        if( valueOnLeft && spaceOnLeft )
        {
          LVARRAY_ERROR( "Array value sequence specified without ',' delimiter: "<<valueString );
        }
      }
''', '''    for( std::string::size_type pos = 0; pos < valueString.size(); ++pos )
    {
      char const c = valueString[ pos ];
      bool const isValue = !( c == '{' || c == ',' || c == '}' || c == ' ' );
      LVARRAY_ERROR_IF( isValue && valueOnLeft && spaceOnLeft, "Array value sequence specified without ',' delimiter: "<<valueString );
''')
ed('input.hpp', '''  for( int i=0; i<NDIM; ++i )
  {
    dims[i]=1;
    currentDims[i] = 1;
  }
''', '''  std::fill( dims, dims + NDIM, INDEX_TYPE( 1 ) );
  std::fill( currentDims, currentDims + NDIM, INDEX_TYPE( 1 ) );
''')
ed('genericTensorOps.hpp', '''  auto norm = vector[ 0 ] * vector[ 0 ];
  for( std::ptrdiff_t i = 1; i < ISIZE; ++i )
  {
    norm = norm + vector[ i ] * vector[ i ];
  }
  return norm;''', '''  std::ptrdiff_t i = 0;
  auto norm = vector[ i ] * vector[ i ];
  while( ++i < ISIZE )
  {
    auto const square = vector[ i ] * vector[ i ];
    norm += square;
  }
  return norm;''')
ed('fixedSizeSquareMatrixOpsImpl.hpp', '''        FloatingPoint const inv = math::invSqrt( a2 + b2 );
        eigenvectors[ 0 ][ 1 ] = -fpCopy[ 2 ] * inv;
        eigenvectors[ 1 ][ 1 ] = fpCopy[ 0 ] * inv;
''', '''        FloatingPoint const sum = a2 + b2;
        FloatingPoint const inv = math::invSqrt( sum );
        eigenvectors[ 1 ][ 1 ] = fpCopy[ 0 ] * inv;
        eigenvectors[ 0 ][ 1 ] = -( fpCopy[ 2 ] * inv );
''')
ed('fixedSizeSquareMatrixOpsImpl.hpp', '''    dstSymMatrix[ 3 ] = ( srcSymMatrix[ 5 ] * srcSymMatrix[ 4 ] - srcSymMatrix[ 0 ] * srcSymMatrix[ 3 ] ) * invDet;''',
   '''    auto const left = srcSymMatrix[ 5 ] * srcSymMatrix[ 4 ];
    auto const right = srcSymMatrix[ 3 ] * srcSymMatrix[ 0 ];
    dstSymMatrix[ 3 ] = invDet * ( left - right );''')
ed('memcpy.hpp', '{ return slice< N_LEFT - 1 >( curSlice[ remainingIndices[ 0 ] ], remainingIndices + 1 ); }',
   '{\n  auto const inner = curSlice[ *remainingIndices ];\n  return slice< N_LEFT - 1 >( inner, remainingIndices + 1 );\n}')
ed('MallocBuffer.hpp', '''    T * const newPtr = reinterpret_cast< T * >( std::malloc( newCapacity * sizeof( T ) ) );''', '''    std::size_t const numBytes = newCapacity * sizeof( T );
    T * const newPtr = static_cast< T * >( std::malloc( numBytes ) );''')

# ---- second set: system.cpp and the Python bindings
E2 = []
def ed2(f, old, new): E2.append(('src/' + f, old, new))

ed2('system.cpp', '''  std::size_t frames_count = 0;
  if( !maxFrames )
  {
    return frames_count;
  }

  UnwindState state = { skip + 1, frames, frames + maxFrames };
  _Unwind_Backtrace( &unwindCallback, &state );
  frames_count = state.current - frames;

  if( frames_count && frames[frames_count - 1] == 0 )
  {
    --frames_count;
  }

  return frames_count;
''', '''  if( maxFrames == 0 )
  {
    return 0;
  }

  UnwindState state;
  state.framesToSkip = skip + 1;
  state.current = frames;
  state.end = frames + maxFrames;
  _Unwind_Backtrace( unwindCallback, &state );

  std::size_t const count = static_cast< std::size_t >( state.current - frames );
  bool const endsWithNull = count != 0 && frames[ count - 1 ] == nullptr;
  return endsWithNull ? count - 1 : count;
''')
ed2('system.cpp', '''  *state->current = reinterpret_cast< void * >( _Unwind_GetIP( context ) );

  ++state->current;
  if( !*(state->current - 1) || state->current == state->end )
  {
    return _URC_END_OF_STACK;
  }

  return _URC_NO_REASON;
''', '''  void * const ip = reinterpret_cast< void * >( _Unwind_GetIP( context ) );
  *( state->current++ ) = ip;

  bool const last = ip == nullptr || state->current == state->end;
  return last ? _URC_END_OF_STACK : _URC_NO_REASON;
''')
ed2('system.cpp', '''  Dl_info dli;
  const bool dl_ok = dladdr( address, &dli );
  if( dl_ok )
  {
    if( dli.dli_sname )
    {
      return LvArray::system::demangle( dli.dli_sname );
    }

    return dli.dli_fname;
  }

  return "Unknown";
''', '''  Dl_info info;
  if( dladdr( address, &info ) == 0 )
  {
    return "Unknown";
  }

  return info.dli_sname != nullptr ? LvArray::system::demangle( info.dli_sname ) : std::string( info.dli_fname );
''')
ed2('system.cpp', '''    switch( m_pid )
    {
      case -1:
      {
        // Failed...
        close( pdes[ 0 ] );
        close( pdes[ 1 ] );
        return;

      }
      case 0:
        // We are the child.
''', '''    if( m_pid == -1 )
    {
      close( pdes[ 1 ] );
      close( pdes[ 0 ] );
      return;
    }
    else if( m_pid == 0 )
    {
        // We are the child.
''')
ed2('system.cpp', '''  // Trimming
  while( !res.empty() && ( res[ res.size() - 1 ] == '\\n' || res[ res.size() - 1 ] == '\\r' ) )
  {
    res.erase( res.size() - 1 );
  }

  return res;
''', '''  // Trimming
  std::size_t length = res.size();
  for(; length > 0; --length )
  {
    char const c = res[ length - 1 ];
    if( c != '\\n' && c != '\\r' )
    {
      break;
    }
  }

  return res.substr( 0, length );
''')
ed2('system.cpp', '''  while( !feof( p ) )
  {
    if( fgets( data, sizeof( data ), p ) )
    {
      res += data;
    }
    else
    {
      break;
    }
  }
''', '''  while( fgets( data, sizeof( data ), p ) != nullptr )
  {
    res.append( data );
  }
''')
ed2('system.cpp', '''  std::ostringstream oss;
  int const fpe = fetestexcept( FE_ALL_EXCEPT );

  oss << "Floating point exception:";

  if( fpe & FE_DIVBYZERO )
  {
    oss << " Division by zero;";
  }
  if( fpe & FE_INEXACT )
  {
    oss << " Inexact result;";
  }
  if( fpe & FE_INVALID )
  {
    oss << " Invalid argument;";
  }
  if( fpe & FE_OVERFLOW )
  {
    oss << " Overflow;";
  }
  if( fpe & FE_UNDERFLOW )
  {
    oss << " Underflow;";
  }

  return oss.str();
''', '''  static constexpr struct { int flag; char const * text; } names[] = {
    { FE_DIVBYZERO, " Division by zero;" },
    { FE_INEXACT, " Inexact result;" },
    { FE_INVALID, " Invalid argument;" },
    { FE_OVERFLOW, " Overflow;" },
    { FE_UNDERFLOW, " Underflow;" }
  };

  std::string text = "Floating point exception:";
  for( auto const & name : names )
  {
    if( fetestexcept( name.flag ) != 0 )
    {
      text += name.text;
    }
  }

  return text;
''')
ed2('system.cpp', '''  std::ostringstream oss;
  oss << "\\n** StackTrace of " << size << " frames **\\n";
  for( std::size_t i = 0; i < size; ++i )
  {
    oss << "Frame " << i << ": " << getFunctionNameFromFrame( array[ i ] );

    if( location )
    {
      oss << " " << getSourceLocationFromFrame( array[ i ] );
    }

    oss << "\\n";
  }

  oss << "=====\\n";

  return oss.str();
''', '''  std::string text = "\\n** StackTrace of " + std::to_string( size ) + " frames **\\n";
  for( std::size_t i = 0; i < size; ++i )
  {
    std::string line = "Frame " + std::to_string( i ) + ": " + getFunctionNameFromFrame( array[ i ] );
    if( location )
    {
      line += ' ';
      line += getSourceLocationFromFrame( array[ i ] );
    }

    text += line + "\\n";
  }

  return text + "=====\\n";
''')
ed2('system.cpp', '''  if( s_errorHandler == nullptr || **s_errorHandler == nullptr )
  {
    return std::abort();
  }

  // The handler may set another one, it is kept until it returns.
  std::shared_ptr< std::function< void() > > const handler = *s_errorHandler;
  (*handler)();
''', '''  std::shared_ptr< std::function< void() > > handler;
  if( s_errorHandler != nullptr )
  {
    handler = *s_errorHandler;
  }
  if( handler != nullptr && static_cast< bool >( *handler ) )
  {
    handler->operator()();
    return;
  }
  std::abort();
''')
ed2('system.cpp', '''  *s_errorHandler = std::make_shared< std::function< void() > >( handler );
''', '''  auto replacement = std::make_shared< std::function< void() > >( handler );
  s_errorHandler->swap( replacement );
''')
ed2('system.cpp', '''  // The handlers saved by an earlier call are the original ones.
  std::map< int, handle_type > const savedHandler = initialHandler;

  initialHandler[SIGHUP] = signal( SIGHUP, handler );
  initialHandler[SIGINT] = signal( SIGINT, handler );
  initialHandler[SIGQUIT] = signal( SIGQUIT, handler );
  initialHandler[SIGILL] = signal( SIGILL, handler );
  initialHandler[SIGTRAP] = signal( SIGTRAP, handler );
  initialHandler[SIGABRT] = signal( SIGABRT, handler );
''', '''  // The handlers saved by an earlier call are the original ones.
  std::map< int, handle_type > const savedHandler = initialHandler;

  int const signals[] = { SIGHUP, SIGINT, SIGQUIT, SIGILL, SIGTRAP, SIGABRT };
  for( int const sig : signals )
  {
    handle_type const previous = signal( sig, handler );
    initialHandler[ sig ] = previous;
  }
''')
for T, fld, nm in (('PySortedArray', 'sortedArray', 'sorted'), ):
    ed2('python/%s.cpp' % T, '''  return PyLong_FromLongLong( self->sortedArray->remove( std::get< 1 >( ret ), std::get< 2 >( ret ) ) );
''', '''  void const * const values = std::get< 1 >( ret );
  long long const numValues = std::get< 2 >( ret );
  long long const numRemoved = self->sortedArray->remove( values, numValues );
  return PyLong_FromLongLong( numRemoved );
''')
ed2('python/PySortedArray.cpp', '''  if( newSpace != static_cast< int >( LvArray::MemorySpace::host ) )
  {
    PyErr_SetString( PyExc_ValueError, "Invalid space" );
    return nullptr;
  }
  self->sortedArray->setAccessLevel( newAccessLevel, newSpace );
  Py_RETURN_NONE;
''', '''  PYTHON_ERROR_IF( newSpace != static_cast< int >( LvArray::MemorySpace::host ), PyExc_ValueError, "Invalid space", nullptr );

  internal::PySortedArrayWrapperBase & wrapper = *self->sortedArray;
  wrapper.setAccessLevel( newAccessLevel, newSpace );
  Py_RETURN_NONE;
''')
ed2('python/PyArrayOfArrays.cpp', '''static PyObject * PyArrayOfArrays_getitem( PyArrayOfArrays * const self, Py_ssize_t pyindex )
{
  VERIFY_NON_NULL_SELF( self );
  VERIFY_INITIALIZED( self );
  long long index = integerConversion< long long >( pyindex );
  if( PyErr_Occurred() != nullptr )
  {
    return nullptr;
  }
  if( index < 0 || index >= self->arrayOfArrays->size() )
  {
    PyErr_SetString( PyExc_IndexError, "Index out of bounds" );
    return nullptr;
  }
  return self->arrayOfArrays->operator[]( index );
}
''', '''static bool isValidArray( PyArrayOfArrays const * const self, long long const index )
{
  long long const numArrays = self->arrayOfArrays->size();
  return !( index < 0 ) && numArrays > index;
}

static PyObject * PyArrayOfArrays_getitem( PyArrayOfArrays * const self, Py_ssize_t pyindex )
{
  VERIFY_NON_NULL_SELF( self );
  VERIFY_INITIALIZED( self );
  long long const index = integerConversion< long long >( pyindex );
  if( PyErr_Occurred() != nullptr )
  {
    return nullptr;
  }
  PYTHON_ERROR_IF( !isValidArray( self, index ), PyExc_IndexError, "Index out of bounds", nullptr );

  internal::PyArrayOfArraysWrapperBase & wrapper = *self->arrayOfArrays;
  return wrapper[ index ];
}
''')
ed2('python/PyArrayOfArrays.cpp', '''  if( index < 0 || index >= self->arrayOfArrays->size() )
  {
    PyErr_SetString( PyExc_IndexError, "Index out of bounds" );
    return -1;
  }
  self->arrayOfArrays->eraseArray( index );
  return 0;
''', '''  if( isValidArray( self, index ) )
  {
    self->arrayOfArrays->eraseArray( index );
    return 0;
  }

  PyErr_SetString( PyExc_IndexError, "Index out of bounds" );
  return -1;
''')
ed2('python/PyCRSMatrix.cpp', '''  long long const numRows = self->matrix->numRows();
  PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                   "Row " << row  <<" is out of bounds for a matrix with " << numRows << " rows.", nullptr );

  return self->matrix->getColumns( row );
''', '''  internal::PyCRSMatrixWrapperBase const & matrix = *self->matrix;
  bool const valid = 0 <= row && row < matrix.numRows();
  PYTHON_ERROR_IF( !valid, PyExc_RuntimeError,
                   "Row " << row << " is out of bounds for a matrix with " << matrix.numRows() << " rows.", nullptr );

  return self->matrix->getColumns( row );
''')
ed2('python/PyCRSMatrix.cpp', '''  if( std::get< 0 >( colsInfo ) == nullptr ||  std::get< 0 >( entriesInfo ) == nullptr )
  {
    return nullptr;
  }

  PYTHON_ERROR_IF( std::get< 2 >( colsInfo ) != std::get< 2 >( entriesInfo ), PyExc_RuntimeError,
                   "Number of columns and entries must match!", nullptr );

  long long const numRows = self->matrix->numRows();
  PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                   "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );

  long long const numInserted''', '''  bool const parsed = !( std::get< 0 >( colsInfo ) == nullptr ) && !( std::get< 0 >( entriesInfo ) == nullptr );
  if( !parsed )
  {
    return nullptr;
  }

  long long const numCols = std::get< 2 >( colsInfo );
  PYTHON_ERROR_IF( numCols != std::get< 2 >( entriesInfo ), PyExc_RuntimeError,
                   "Number of columns and entries must match!", nullptr );

  long long const numRows = self->matrix->numRows();
  PYTHON_ERROR_IF( row >= numRows || row < 0, PyExc_RuntimeError,
                   "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );

  long long const numInserted''')
ed2('python/PyCRSMatrix.cpp', '''  PyObjectRef<> sciPySparse = PyImport_ImportModule( "scipy.sparse" );
  if( sciPySparse == nullptr )
  {
    return nullptr;
  }

  PyObjectRef<> constructor = PyObject_GetAttrString( sciPySparse, "csr_matrix" );
  if( constructor == nullptr )
  {
    return nullptr;
  }

  return''', '''  PyObjectRef<> sciPySparse { PyImport_ImportModule( "scipy.sparse" ) };
  PyObjectRef<> constructor { sciPySparse == nullptr ? nullptr : PyObject_GetAttrString( sciPySparse, "csr_matrix" ) };
  if( constructor == nullptr )
  {
    return nullptr;
  }

  return''')
ed2('python/numpyHelpers.cpp', '''  std::vector< npy_intp > byteStrides( ndim );
  std::vector< npy_intp > npyDims( ndim );

  for( int i = 0; i < ndim; ++i )
  {
    byteStrides[ i ] = integerConversion< npy_intp >( strides[ i ] * typeInfo.second );
    npyDims[ i ] = integerConversion< npy_intp >( dims[ i ] );
  }
''', '''  std::vector< npy_intp > byteStrides;
  std::vector< npy_intp > npyDims;
  byteStrides.reserve( ndim );
  npyDims.reserve( ndim );

  for( long long const * dim = dims; dim != dims + ndim; ++dim )
  {
    npyDims.push_back( integerConversion< npy_intp >( *dim ) );
  }
  for( int i = 0; i < ndim; ++i )
  {
    byteStrides.push_back( integerConversion< npy_intp >( typeInfo.second * strides[ i ] ) );
  }
''')
ed2('python/numpyHelpers.cpp', '''  if( srcNumPyType == expectedNumPyType )
  {
    void const * vals = PyArray_DATA( array );
    long long const nVals = integerConversion< long long >( PyArray_SIZE( array ) );
    return ReturnType{ reinterpret_cast< PyObject * >( array.release() ), vals, nVals };
  }
''', '''  auto const pack = []( PyArrayObject * const owned )
  {
    void const * const data = PyArray_DATA( owned );
    long long const count = integerConversion< long long >( PyArray_SIZE( owned ) );
    return ReturnType{ reinterpret_cast< PyObject * >( owned ), data, count };
  };

  if( srcNumPyType == expectedNumPyType )
  {
    return pack( array.release() );
  }
''')
ed2('python/numpyHelpers.cpp', '''  void const * vals = PyArray_DATA( convertedArray );
  long long const nVals = integerConversion< long long >( PyArray_SIZE( convertedArray ) );
  return ReturnType{ reinterpret_cast< PyObject * >( convertedArray ), vals, nVals };
''', '''  return pack( convertedArray );
''')
ed2('python/pythonHelpers.cpp', '''  PyObject * pylist = PyList_New( size );
  if( pylist == nullptr )
  {
    return nullptr;
  }

  for( long long i = 0; i < size; ++i )
  {
    PyObject * pystr = PyUnicode_FromString( strptr[ i ].c_str() );
    if( pystr == nullptr )
    {
      Py_DECREF( pylist );
      return nullptr;
    }

    PyList_SET_ITEM( pylist, integerConversion< Py_ssize_t >( i ), pystr );
  }
  return pylist;
''', '''  PyObjectRef<> list { PyList_New( size ) };
  if( list == nullptr )
  {
    return nullptr;
  }

  Py_ssize_t position = 0;
  while( position < size )
  {
    PyObject * const item = PyUnicode_FromString( strptr[ position ].c_str() );
    if( item == nullptr )
    {
      return nullptr;
    }

    PyList_SET_ITEM( list.get(), position, item );
    ++position;
  }
  return list.release();
''')
ed2('python/pythonHelpers.cpp', '''  Py_INCREF( type );
  if( PyModule_AddObject( module, typeName, reinterpret_cast< PyObject * >( type ) ) < 0 )
  {
    Py_DECREF( type );
    return false;
  }

  return true;
''', '''  PyObject * const object = reinterpret_cast< PyObject * >( type );
  Py_INCREF( object );
  bool const added = PyModule_AddObject( module, typeName, object ) >= 0;
  if( !added )
  {
    Py_DECREF( object );
  }

  return added;
''')

# ---- third set: the containers
E3 = []
def ed3(f, old, new): E3.append(('src/' + f, old, new))

ed3('CRSMatrix.hpp', '''    if( nonZeroCapacity( row ) >= nnz ) return;
    setRowCapacity( row, nnz );
''', '''    INDEX_TYPE const currentCapacity = nonZeroCapacity( row );
    if( nnz > currentCapacity )
    {
      setRowCapacity( row, nnz );
    }
''')
ed3('CRSMatrix.hpp', '''    if( newCapacity > numColumns() ) newCapacity = numColumns();
    ParentClass::setCapacityOfArray( row, newCapacity, this->m_entries );
''', '''    INDEX_TYPE const clamped = newCapacity > numColumns() ? numColumns() : newCapacity;
    ParentClass::setCapacityOfArray( row, clamped, this->m_entries );
''')
ed3('ArrayOfArrays.hpp', '''    INDEX_TYPE const maxOffset = this->m_offsets[ this->m_numArrays ];
    bufferManipulation::emplaceBack( this->m_offsets, this->m_numArrays + 1, maxOffset );
    bufferManipulation::emplaceBack( this->m_sizes, this->m_numArrays, 0 );
    ++this->m_numArrays;

    resizeArray( this->m_numArrays - 1, n );
''', '''    INDEX_TYPE const newArray = appendEmptyArray();
    resizeArray( newArray, n );
''')
ed3('ArrayOfArrays.hpp', '''    INDEX_TYPE const maxOffset = this->m_offsets[ this->m_numArrays ];
    bufferManipulation::emplaceBack( this->m_offsets, this->m_numArrays + 1, maxOffset );
    bufferManipulation::emplaceBack( this->m_sizes, this->m_numArrays, 0 );
    ++this->m_numArrays;

    appendToArray( this->m_numArrays - 1, first, last );
''', '''    appendToArray( appendEmptyArray(), first, last );
''')
ed3('ArrayOfArrays.hpp', '''  void setName( std::string const & name )
  { ParentClass::template setName< decltype( *this ) >( name ); }

private:
''', '''  void setName( std::string const & name )
  { ParentClass::template setName< decltype( *this ) >( name ); }

private:

  INDEX_TYPE appendEmptyArray()
  {
    INDEX_TYPE const last = this->m_numArrays;
    INDEX_TYPE const end = this->m_offsets[ last ];
    bufferManipulation::emplaceBack( this->m_sizes, last, 0 );
    bufferManipulation::emplaceBack( this->m_offsets, last + 1, end );
    this->m_numArrays = last + 1;
    return last;
  }

''')
ed3('ArrayOfArrays.hpp', '''    setCapacityOfArray( i, 0 );
    bufferManipulation::erase( this->m_offsets, this->m_numArrays + 1, i + 1 );
    bufferManipulation::erase( this->m_sizes, this->m_numArrays, i );
    --this->m_numArrays;
''', '''    INDEX_TYPE const numArrays = this->m_numArrays;
    setCapacityOfArray( i, 0 );
    bufferManipulation::erase( this->m_sizes, numArrays, i );
    bufferManipulation::erase( this->m_offsets, numArrays + 1, i );
    this->m_numArrays = numArrays - 1;
''')
ed3('ArrayOfArrays.hpp', '''    if( newSize > capacityOfArray( i ) )
    {
      setCapacityOfArray( i, newSize );
    }

    INDEX_TYPE const prevSize = sizeOfArray( i );
    T * const values = (*this)[i];
    arrayManipulation::resize( values, prevSize, newSize, std::forward< ARGS >( args )... );
    this->m_sizes[ i ] = newSize;
''', '''    INDEX_TYPE const prevSize = sizeOfArray( i );
    bool const fits = newSize <= capacityOfArray( i );
    if( !fits )
    {
      setCapacityOfArray( i, newSize );
    }

    arrayManipulation::resize( &this->m_values[ this->m_offsets[ i ] ], prevSize, newSize, std::forward< ARGS >( args )... );
    this->m_sizes[ i ] = newSize;
''')
ed3('Array.hpp', '''    bufferManipulation::resize( this->m_dataBuffer, this->size(), 0 );

    this->m_dims[ this->getSingleParameterResizeIndex() ] = 0;

    this->m_strides = indexing::calculateStrides< PERMUTATION >( this->m_dims );
''', '''    INDEX_TYPE const oldSize = this->size();
    int const resizeIndex = this->getSingleParameterResizeIndex();
    this->m_dims[ resizeIndex ] = 0;
    this->m_strides = indexing::calculateStrides< PERMUTATION >( this->m_dims );
    bufferManipulation::resize( this->m_dataBuffer, oldSize, 0 );
''')
ed3('Array.hpp', '''    if( newSize == curSize ) return;

    // If the size is increasing do one thing, if it's decreasing do another.
    if( newDimLength > curDimLength )
    {''', '''    if( newSize == curSize )
    {
      return;
    }

    // If the size is increasing do one thing, if it's decreasing do another.
    bool const growing = newSize > curSize;
    if( growing )
    {''')
ed3('Array.hpp', '''        for( INDEX_TYPE j = 0; j < valuesToAddPerIteration; ++j )
        {
          new ( startOfNewValues + j ) T( args ... );
        }
''', '''        T * const endOfNewValues = startOfNewValues + valuesToAddPerIteration;
        for( T * value = startOfNewValues; value != endOfNewValues; ++value )
        {
          new ( value ) T( args ... );
        }
''')
ed3('Array.hpp', '''      INDEX_TYPE const totalValuesToRemove = valuesToRemovePerIteration * numIterations;
      for( INDEX_TYPE i = 0; i < totalValuesToRemove; ++i )
      {
        ptr[ newSize + i ].~T();
      }
''', '''      arrayManipulation::destroy( ptr + newSize, curSize - newSize );
''')
ed3('ArrayOfArraysView.hpp', '''      INDEX_TYPE const nextOffset = m_offsets[ i + 1 ];
      INDEX_TYPE const shiftAmount = nextOffset - m_offsets[ i ] - sizeOfArray( i );
      INDEX_TYPE const sizeOfNextArray = sizeOfArray( i + 1 );
''', '''      INDEX_TYPE const sizeOfNextArray = sizeOfArray( i + 1 );
      INDEX_TYPE const nextOffset = m_offsets[ i + 1 ];
      INDEX_TYPE const endOfValues = m_offsets[ i ] + sizeOfArray( i );
      INDEX_TYPE const shiftAmount = nextOffset - endOfValues;
      if( shiftAmount == 0 )
      {
        continue;
      }
''')
ed3('ArrayOfArraysView.hpp', '''        for( INDEX_TYPE i = 1; i < newSize + 1 - m_numArrays; ++i )
        {
          m_offsets[ m_numArrays + i ] = originalOffset + i * defaultArrayCapacity;
        }
''', '''        INDEX_TYPE nextOffset = originalOffset;
        for( INDEX_TYPE array = m_numArrays; array < newSize; ++array )
        {
          nextOffset += defaultArrayCapacity;
          m_offsets[ array + 1 ] = nextOffset;
        }
''')
ed3('ArrayOfArraysView.hpp', '''    // Update the offsets array
    for( INDEX_TYPE array = i + 1; array < m_numArrays + 1; ++array )
    {
      m_offsets[array] += capacityIncrease;
    }
''', '''    // Update the offsets array
    INDEX_TYPE * const offsets = &m_offsets[ 0 ];
    for( INDEX_TYPE array = m_numArrays; array > i; --array )
    {
      offsets[ array ] = offsets[ array ] + capacityIncrease;
    }
''')
ed3('sortedArrayManipulation.hpp', '''  std::ptrdiff_t lower = 0;
  std::ptrdiff_t upper = size;
  while( lower != upper )
  {
    std::ptrdiff_t const guess = (lower + upper) / 2;
    if( comp( ptr[guess], value ) )
    {
      lower = guess + 1;
    }
    else
    {
      upper = guess;
    }
  }

  return lower;
''', '''  T const * lower = ptr;
  std::ptrdiff_t count = size;
  while( count > 0 )
  {
    std::ptrdiff_t const half = count / 2;
    T const * const guess = lower + half;
    bool const goRight = comp( *guess, value );
    lower = goRight ? guess + 1 : lower;
    count = goRight ? count - half - 1 : half;
  }

  return lower - ptr;
''')
ed3('sortedArrayManipulation.hpp', '''  std::ptrdiff_t insertPos = std::ptrdiff_t( -1 );
  if( size == 0 || value < ptr[0] ) // Take care of the case of an empty array or inserting at the beginning.
  {
    insertPos = 0;
  }
  else if( ptr[size - 1] < value ) // The case of inserting at the end.
  {
    insertPos = size;
  }
  else // otherwise do a binary search
  {
    // We've already checked the first and last values.
    insertPos = find( ptr, size, value );
  }
''', '''  bool const append = size != 0 && ptr[ size - 1 ] < value;
  std::ptrdiff_t const insertPos = append ? size : find( ptr, size, value );
''')
ed3('sortedArrayManipulation.hpp', '''  // Destroy the values moved out of at the end of the array.
  for( std::ptrdiff_t i = size - nRemoved; i < size; ++i )
  {
    ptr[ i ].~T();
  }
''', '''  // Destroy the values moved out of at the end of the array.
  arrayManipulation::destroy( ptr + ( size - nRemoved ), nRemoved );
''')
ed3('sortedArrayManipulation.hpp', '''  ITER next = first;
  ++next;
  while( next != last )
  {
    if( comp( *next, *first ) || !comp( *first, *next ) )
    {
      return false;
    }

    first = next;
    ++next;
  }

  return true;
''', '''  for( ITER next = first; ++next != last; ++first )
  {
    bool const increasing = comp( *first, *next ) && !comp( *next, *first );
    if( !increasing )
    {
      return false;
    }
  }

  return true;
''')
ed3('sortedArrayManipulationHelpers.hpp', '''  if( comp( *a, *b ))
  {
    if( comp( *b, *c ))
    {
      exchange( result, b );
    }
    else if( comp( *a, *c ))
    {
      exchange( result, c );
    }
    else
    {
      exchange( result, a );
    }
  }
''', '''  bool const aLessB = comp( *a, *b );
  if( aLessB )
  {
    Iterator const median = comp( *b, *c ) ? b : ( comp( *a, *c ) ? c : a );
    exchange( result, median );
  }
''')
ed3('sortedArrayManipulationHelpers.hpp', '''  while( true )
  {
    while( comp( *first, *pivot ))
    {
      ++first;
    }

    --last;
    while( comp( *pivot, *last ))
    {
      --last;
    }

    if( !(first < last))
    {
      return first;
    }
''', '''  for(;; )
  {
    for(; comp( *first, *pivot ); ++first );

    do
    {
      --last;
    }
    while( comp( *pivot, *last ) );

    bool const crossed = !( first < last );
    if( crossed )
    {
      return first;
    }
''')

def main(props):
    edits = E
    if props and props[0] == '--set2': edits, props = E2, props[1:] or ['C20', 'C24', 'C31', 'C33']
    if props and props[0] == '--set3': edits, props = E3, props[1:]
    wt = tempfile.mkdtemp(prefix='refwt')
    subprocess.check_call(['git', 'clone', '-q', '/repo', wt + '/r'])
    for f, old, new in edits:
        if old is None: continue
        s = open(wt + '/r/' + f).read()
        if s.count(old) != 1:
            print('SKIP %s: %d matches of %r' % (f, s.count(old), old[:80])); continue
        open(wt + '/r/' + f, 'w').write(s.replace(old, new))
    if not props:
        props = sorted({f[:3] for f in os.listdir(HERE + '/harness') if f[0] == 'C' and f[1:3].isdigit()})
    for p in props:
        k = subprocess.run(['python3', HERE + '/check.py', p, '--tier', 'quick'], env=dict(os.environ, LV_REPO=wt + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = [x for x in k.stdout.decode().split('\n') if x.strip()]
        print(p, k.returncode, ' | '.join(x[:250] for x in o[-3:]), flush=True)
    shutil.rmtree(wt)

if __name__ == '__main__':
    main(sys.argv[1:])
