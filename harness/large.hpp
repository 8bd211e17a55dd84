// larger containers: one operation near the front, the middle or the end of them, for code that treats many values otherwise than few
#pragma once
#include "rows.hpp"
#include <vector>
using Big = std::vector< int >;
// a position in a window of w + 1 of the values 0 .. n, at the front, in the middle or at the end
inline int window( char const * name, int n, int w )
{
  if( n <= 3 * w ) return lv_concrete( range( name, 0, n ) );
  int const at = shape( name, 0, 2 ), lo = at == 0 ? 0 : at == 1 ? ( n - w ) / 2 : n - w; return lv_concrete( range( name, lo, lo + w ) );
}
inline int lowerBig( Big const & k, int x ) { int r = 0; while( r < static_cast< int >( k.size() ) && k[ r ] < x ) ++r; return r; }
inline bool putBig( Big & k, int x ) { int p = lowerBig( k, x ); if( p < static_cast< int >( k.size() ) && k[ p ] == x ) return false; k.insert( k.begin() + p, x ); return true; }
inline bool dropBig( Big & k, int x ) { int p = lowerBig( k, x ); if( p == static_cast< int >( k.size() ) || k[ p ] != x ) return false; k.erase( k.begin() + p ); return true; }
// an array of arrays: rows of it
using BigRows = std::vector< Big >;
// kind 0: many rows of 0..2 values; kind 1: three rows, one or two of them long
inline void bigStart( BigRows & m, int kind, int n ) { m.clear(); if( kind == 0 ) for( int i = 0; i < n; ++i ) m.push_back( Big( i % 3 ) ); else { m.push_back( Big( 2 ) ); m.push_back( Big( n ) ); m.push_back( Big( kind == 1 ? 3 : n ) ); } }
