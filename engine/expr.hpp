// Symbolic expression DAG of lvsym: hash-consed bit-vector (1..128 bit) and real terms with
// construction-time simplification, a concrete evaluator, and a translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cfenv>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <cassert>
#include <cstdio>
#include <cstdlib>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

static const u16 WREAL = 0xFFFF;

enum Op : u8 {
  O_CONST, O_SYM,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
  O_UADDO, O_SADDO, O_USUBO, O_SSUBO, O_UMULO, O_SMULO,      // w = 1: does the operation overflow
  // IEEE operations on bit patterns (width 32 or 64)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FSQRT, O_FREM,
  O_FLT, O_FLE, O_FEQ, O_FUNO,
  O_F2F, O_S2F, O_U2F, O_F2S, O_F2U,
  // Real arithmetic
  O_RCONST, O_RSYM, O_RADD, O_RSUB, O_RMUL, O_RDIV, O_RLT, O_RLE, O_REQ, O_RITE, O_RFROMS, O_RFROMU, O_RSQRT,
  O_UF                                                        // uninterpreted function: c = function id
};

struct Node { Op op; u16 w; u32 id; u32 nsym; const Node * k[3]; u64 c; u64 hash; };
typedef const Node * E;

static inline u64 maskw( unsigned w ) { return w >= 64 ? ~0ull : ( ( 1ull << w ) - 1 ); }
static inline i64 sx( u64 v, unsigned w ) { if( w >= 64 ) return (i64)v; u64 m = 1ull << ( w - 1 ); v &= maskw( w ); return (i64)( ( v ^ m ) - m ); }
static inline double asD( u64 b ) { double d; memcpy( &d, &b, 8 ); return d; }
static inline u64 dBits( double d ) { u64 b; memcpy( &b, &d, 8 ); return b; }
static inline float asF( u64 b ) { u32 x = (u32)b; float f; memcpy( &f, &x, 4 ); return f; }
static inline u64 fBits( float f ) { u32 x; memcpy( &x, &f, 4 ); return x; }

struct SymInfo { std::string name; u16 w; bool garbage; };

struct Pool
{
  std::vector< Node * > nodes;
  std::vector< u32 > table;   // open addressing: node id + 1
  std::vector< SymInfo > syms;
  std::vector< E > symNode;
  std::vector< std::string > ufNames;

  Pool() { table.assign( 1u << 16, 0 ); }

  static u64 h( u64 a, u64 b ) { a ^= b + 0x9e3779b97f4a7c15ull + ( a << 6 ) + ( a >> 2 ); a *= 0xff51afd7ed558ccdull; return a ^ ( a >> 32 ); }

  E mk( Op op, u16 w, E a, E b, E c, u64 v )
  {
    u64 hs = h( h( h( h( op * 1315423911ull + w, v ), a ? a->id + 1 : 0 ), b ? b->id + 1 : 0 ), c ? c->id + 1 : 0 );
    size_t m = table.size() - 1, i = hs & m;
    while( table[ i ] )
    {
      Node * n = nodes[ table[ i ] - 1 ];
      if( n->hash == hs && n->op == op && n->w == w && n->k[0] == a && n->k[1] == b && n->k[2] == c && n->c == v ) return n;
      i = ( i + 1 ) & m;
    }
    Node * n = new Node{ op, w, (u32)nodes.size(), 0, { a, b, c }, v, hs };
    nodes.push_back( n );
    table[ i ] = n->id + 1;
    if( nodes.size() * 2 > table.size() )
    {
      std::vector< u32 > t( table.size() * 2, 0 );
      size_t mm = t.size() - 1;
      for( Node * x : nodes ) { size_t j = x->hash & mm; while( t[ j ] ) j = ( j + 1 ) & mm; t[ j ] = x->id + 1; }
      table.swap( t );
    }
    return n;
  }
};
extern Pool P;

static inline E kc( u64 v, unsigned w ) { return P.mk( O_CONST, (u16)w, 0, 0, 0, v & maskw( w ) ); }
static inline bool isC( E e ) { return e->op == O_CONST; }
static inline bool isC( E e, u64 v ) { return e->op == O_CONST && e->c == v; }
static inline E rconst( double d ) { if( d == 0 ) d = 0; return P.mk( O_RCONST, WREAL, 0, 0, 0, dBits( d ) ); }

static inline E newSym( std::string const & name, unsigned w, bool garbage = false )
{
  u64 idx = P.syms.size();
  P.syms.push_back( { name, (u16)w, garbage } );
  E e = P.mk( w == WREAL ? O_RSYM : O_SYM, (u16)w, 0, 0, 0, idx );
  P.symNode.push_back( e );
  return e;
}

u64 foldBin( Op op, u64 a, u64 b, unsigned w, bool & ok );
u64 foldFp( Op op, u64 a, u64 b, unsigned w );

E bin( Op op, E a, E b );
E ite( E c, E a, E b );
E zext( E a, unsigned w );
E sext( E a, unsigned w );
E extract( E a, unsigned off, unsigned w );
E concat( E hi, E lo );
E eq( E a, E b );
E cmp( Op op, E a, E b );
E ovf( Op op, E a, E b );
E fbin( Op op, E a, E b );
E fcmpE( Op op, E a, E b );
E rbin( Op op, E a, E b );
E rcmp( Op op, E a, E b );
E uf( std::string const & name, E a, E b, unsigned w );
static inline E bnot( E a ) { return bin( O_XOR, a, kc( 1, 1 ) ); }
static inline E band( E a, E b ) { return bin( O_AND, a, b ); }
static inline E bor( E a, E b ) { return bin( O_OR, a, b ); }

// Evaluate under an assignment of symbols (by symbol index); missing symbols are 0.
struct Evaluator
{
  std::vector< u64 > val; std::vector< u32 > ep; u32 epoch = 0;
  const std::vector< u64 > * as = nullptr;
  bool real = false;           // set when a real-sorted or uninterpreted term was met: the value is meaningless
  void begin( const std::vector< u64 > * a ) { as = a; ++epoch; real = false; }
  u64 eval( E e );
};
