#include "expr.hpp"
Pool P;

static bool fits( unsigned w ) { return w <= 64; }

u64 foldBin( Op op, u64 a, u64 b, unsigned w, bool & ok )
{
  ok = true;
  u64 m = maskw( w ); a &= m; b &= m;
  i64 sa = sx( a, w ), sb = sx( b, w );
  switch( op )
  {
    case O_ADD: return ( a + b ) & m;
    case O_SUB: return ( a - b ) & m;
    case O_MUL: return ( a * b ) & m;
    case O_UDIV: if( !b ) { ok = false; return 0; } return a / b;
    case O_UREM: if( !b ) { ok = false; return 0; } return a % b;
    case O_SDIV: if( !sb || ( sb == -1 && sa == INT64_MIN ) ) { ok = false; return 0; } return (u64)( sa / sb ) & m;
    case O_SREM: if( !sb || ( sb == -1 && sa == INT64_MIN ) ) { ok = false; return 0; } return (u64)( sa % sb ) & m;
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : ( a << b ) & m;
    case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: return b >= w ? ( sa < 0 ? m : 0 ) : (u64)( sa >> b ) & m;
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sa < sb;
    case O_SLE: return sa <= sb;
    default: ok = false; return 0;
  }
}

static bool ovfFold( Op op, u64 a, u64 b, unsigned w )
{
  __int128 ua = a & maskw( w ), ub = b & maskw( w ), sa = sx( a, w ), sb = sx( b, w );
  __int128 smax = ( (__int128)1 << ( w - 1 ) ) - 1, smin = -smax - 1, umax = maskw( w );
  switch( op )
  {
    case O_UADDO: return ua + ub > umax;
    case O_USUBO: return ua < ub;
    case O_UMULO: return (unsigned __int128)ua * (unsigned __int128)ub > (unsigned __int128)umax;
    case O_SADDO: return sa + sb > smax || sa + sb < smin;
    case O_SSUBO: return sa - sb > smax || sa - sb < smin;
    case O_SMULO: return sa * sb > smax || sa * sb < smin;
    default: abort();
  }
}

u64 foldFp( Op op, u64 a, u64 b, unsigned w )
{
  if( w == 64 )
  {
    double x = asD( a ), y = asD( b );
    switch( op )
    {
      case O_FADD: return dBits( x + y ); case O_FSUB: return dBits( x - y ); case O_FMUL: return dBits( x * y );
      case O_FDIV: return dBits( x / y ); case O_FSQRT: return dBits( std::sqrt( x ) ); case O_FREM: return dBits( std::fmod( x, y ) );
      case O_FLT: return x < y; case O_FLE: return x <= y; case O_FEQ: return x == y; case O_FUNO: return x != x || y != y;
      default: abort();
    }
  }
  float x = asF( a ), y = asF( b );
  switch( op )
  {
    case O_FADD: return fBits( x + y ); case O_FSUB: return fBits( x - y ); case O_FMUL: return fBits( x * y );
    case O_FDIV: return fBits( x / y ); case O_FSQRT: return fBits( std::sqrt( x ) ); case O_FREM: return fBits( std::fmod( x, y ) );
    case O_FLT: return x < y; case O_FLE: return x <= y; case O_FEQ: return x == y; case O_FUNO: return x != x || y != y;
    default: abort();
  }
}

E extract( E a, unsigned off, unsigned w )
{
  if( off == 0 && w == a->w ) return a;
  switch( a->op )
  {
    case O_CONST: return kc( a->c >> off, w );
    case O_EXTRACT: return extract( a->k[0], off + (unsigned)a->c, w );
    case O_CONCAT:
    {
      unsigned lw = a->k[1]->w;
      if( off + w <= lw ) return extract( a->k[1], off, w );
      if( off >= lw ) return extract( a->k[0], off - lw, w );
      break;
    }
    case O_ZEXT: case O_SEXT:
      if( off + w <= a->k[0]->w ) return extract( a->k[0], off, w );
      if( a->op == O_ZEXT && off >= a->k[0]->w ) return kc( 0, w );
      break;
    case O_ITE:
      if( isC( a->k[1] ) && isC( a->k[2] ) ) return ite( a->k[0], extract( a->k[1], off, w ), extract( a->k[2], off, w ) );
      break;
    case O_AND: case O_OR: case O_XOR:
      if( isC( a->k[1] ) ) return bin( a->op, extract( a->k[0], off, w ), extract( a->k[1], off, w ) );
      break;
    case O_ADD: case O_SUB: case O_MUL:
      if( off == 0 && a->w <= 64 ) return bin( a->op, extract( a->k[0], 0, w ), extract( a->k[1], 0, w ) );
      break;
    default: break;
  }
  return P.mk( O_EXTRACT, w, a, 0, 0, off );
}

E concat( E hi, E lo )
{
  unsigned w = hi->w + lo->w;
  if( isC( hi ) && isC( lo ) && w <= 64 ) return kc( ( hi->c << lo->w ) | lo->c, w );
  if( isC( hi, 0 ) ) return zext( lo, w );
  if( hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w )
    return extract( hi->k[0], (unsigned)lo->c, w );
  if( hi->op == O_EXTRACT && hi->k[0] == lo && hi->c == lo->w ) return extract( lo, 0, w );
  return P.mk( O_CONCAT, w, hi, lo, 0, 0 );
}

E zext( E a, unsigned w )
{
  if( a->w == w ) return a;
  if( a->w > w ) return extract( a, 0, w );
  if( isC( a ) && w <= 64 ) return kc( a->c, w );
  if( a->op == O_ZEXT ) return zext( a->k[0], w );
  if( a->op == O_ITE && isC( a->k[1] ) && isC( a->k[2] ) && w <= 64 ) return ite( a->k[0], kc( a->k[1]->c, w ), kc( a->k[2]->c, w ) );
  return P.mk( O_ZEXT, w, a, 0, 0, 0 );
}

E sext( E a, unsigned w )
{
  if( a->w == w ) return a;
  if( a->w > w ) return extract( a, 0, w );
  if( isC( a ) && w <= 64 ) return kc( (u64)sx( a->c, a->w ), w );
  if( a->op == O_SEXT ) return sext( a->k[0], w );
  if( a->op == O_ZEXT ) return zext( a->k[0], w );
  if( a->op == O_ITE && isC( a->k[1] ) && isC( a->k[2] ) && w <= 64 ) return ite( a->k[0], sext( a->k[1], w ), sext( a->k[2], w ) );
  return P.mk( O_SEXT, w, a, 0, 0, 0 );
}

E ite( E c, E a, E b )
{
  if( isC( c ) ) return c->c ? a : b;
  if( a == b ) return a;
  if( a->w == WREAL )
    return P.mk( O_RITE, WREAL, c, a, b, 0 );
  if( a->w == 1 )
  {
    if( isC( a, 1 ) && isC( b, 0 ) ) return c;
    if( isC( a, 0 ) && isC( b, 1 ) ) return bnot( c );
    if( isC( a, 1 ) ) return bor( c, b );
    if( isC( a, 0 ) ) return band( bnot( c ), b );
    if( isC( b, 0 ) ) return band( c, a );
    if( isC( b, 1 ) ) return bor( bnot( c ), a );
  }
  if( c->op == O_XOR && c->w == 1 && isC( c->k[1], 1 ) ) return ite( c->k[0], b, a );
  return P.mk( O_ITE, a->w, c, a, b, 0 );
}

static bool commut( Op op ) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ; }

E eq( E a, E b )
{
  if( a == b ) return kc( 1, 1 );
  if( isC( a ) ) std::swap( a, b );
  if( isC( b ) )
  {
    if( isC( a ) ) return kc( a->c == b->c, 1 );
    if( a->w == 1 ) return b->c ? a : bnot( a );
    if( a->op == O_ZEXT )
    {
      if( b->c & ~maskw( a->k[0]->w ) ) return kc( 0, 1 );
      return eq( a->k[0], kc( b->c, a->k[0]->w ) );
    }
    if( a->op == O_SEXT )
    {
      u64 lo = b->c & maskw( a->k[0]->w );
      if( ( (u64)sx( lo, a->k[0]->w ) & maskw( a->w ) ) != b->c ) return kc( 0, 1 );
      return eq( a->k[0], kc( lo, a->k[0]->w ) );
    }
    if( a->op == O_ITE && isC( a->k[1] ) && isC( a->k[2] ) )
    {
      bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
      if( t && f ) return kc( 1, 1 );
      if( t ) return a->k[0];
      if( f ) return bnot( a->k[0] );
      return kc( 0, 1 );
    }
    if( a->op == O_ADD && isC( a->k[1] ) ) return eq( a->k[0], kc( b->c - a->k[1]->c, a->w ) );
  }
  else
  {
    if( a->w == 1 ) return bnot( bin( O_XOR, a, b ) );
    if( a->op == O_ADD && b->op == O_ADD && isC( a->k[1] ) && a->k[1] == b->k[1] ) return eq( a->k[0], b->k[0] );
    if( a->op == b->op && ( a->op == O_ZEXT || a->op == O_SEXT ) && a->k[0]->w == b->k[0]->w ) return eq( a->k[0], b->k[0] );
  }
  if( !isC( b ) && a->id > b->id ) std::swap( a, b );
  return P.mk( O_EQ, 1, a, b, 0, 0 );
}

E cmp( Op op, E a, E b )
{
  if( op == O_EQ ) return eq( a, b );
  if( a == b ) return kc( op == O_ULE || op == O_SLE, 1 );
  if( isC( a ) && isC( b ) && fits( a->w ) ) { bool ok; return kc( foldBin( op, a->c, b->c, a->w, ok ), 1 ); }
  unsigned w = a->w;
  if( op == O_ULT )
  {
    if( isC( b, 0 ) ) return kc( 0, 1 );
    if( isC( b, 1 ) ) return eq( a, kc( 0, w ) );
    if( isC( a, maskw( w ) ) ) return kc( 0, 1 );
  }
  if( op == O_ULE )
  {
    if( isC( a, 0 ) ) return kc( 1, 1 );
    if( isC( b, maskw( w ) ) ) return kc( 1, 1 );
    return bnot( cmp( O_ULT, b, a ) );
  }
  if( op == O_SLE ) return bnot( cmp( O_SLT, b, a ) );
  if( a->op == b->op && ( a->op == O_ZEXT || a->op == O_SEXT ) && a->k[0]->w == b->k[0]->w )
    return cmp( a->op == O_ZEXT ? O_ULT : op, a->k[0], b->k[0] );
  if( op == O_SLT )
  {
    if( a->op == O_ZEXT && isC( b ) )
    {
      i64 bv = sx( b->c, w );
      if( bv <= 0 ) return kc( 0, 1 );
      if( (u64)bv > maskw( a->k[0]->w ) ) return kc( 1, 1 );
      return cmp( O_ULT, a->k[0], kc( (u64)bv, a->k[0]->w ) );
    }
    if( b->op == O_ZEXT && isC( a ) )
    {
      i64 av = sx( a->c, w );
      if( av < 0 ) return kc( 1, 1 );
      if( (u64)av >= maskw( b->k[0]->w ) ) return kc( 0, 1 );
      return cmp( O_ULT, kc( (u64)av, b->k[0]->w ), b->k[0] );
    }
    if( a->op == O_SEXT && isC( b ) )
    {
      unsigned kw = a->k[0]->w; i64 bv = sx( b->c, w );
      i64 mx = (i64)( maskw( kw ) >> 1 ), mn = -mx - 1;
      if( bv > mx ) return kc( 1, 1 );
      if( bv <= mn ) return kc( 0, 1 );
      return cmp( O_SLT, a->k[0], kc( (u64)bv, kw ) );
    }
    if( b->op == O_SEXT && isC( a ) )
    {
      unsigned kw = b->k[0]->w; i64 av = sx( a->c, w );
      i64 mx = (i64)( maskw( kw ) >> 1 ), mn = -mx - 1;
      if( av >= mx ) return kc( 0, 1 );
      if( av < mn ) return kc( 1, 1 );
      return cmp( O_SLT, kc( (u64)av, kw ), b->k[0] );
    }
  }
  return P.mk( op, 1, a, b, 0, 0 );
}

E bin( Op op, E a, E b )
{
  unsigned w = a->w;
  if( isC( a ) && isC( b ) && fits( w ) )
  {
    bool ok; u64 r = foldBin( op, a->c, b->c, w, ok );
    if( ok ) return kc( r, w );
  }
  if( commut( op ) && isC( a ) ) std::swap( a, b );
  switch( op )
  {
    case O_ADD:
      if( isC( b, 0 ) ) return a;
      if( isC( b ) && a->op == O_ADD && isC( a->k[1] ) && fits( w ) ) return bin( O_ADD, a->k[0], kc( a->k[1]->c + b->c, w ) );
      if( isC( b ) && a->op == O_ITE && isC( a->k[1] ) && isC( a->k[2] ) && fits( w ) )
        return ite( a->k[0], kc( a->k[1]->c + b->c, w ), kc( a->k[2]->c + b->c, w ) );
      if( !isC( b ) && a->op == O_ADD && isC( a->k[1] ) ) return bin( O_ADD, bin( O_ADD, a->k[0], b ), a->k[1] );
      if( !isC( b ) && b->op == O_ADD && isC( b->k[1] ) ) return bin( O_ADD, bin( O_ADD, a, b->k[0] ), b->k[1] );
      if( a->op == O_SUB && a->k[1] == b ) return a->k[0];
      if( b->op == O_SUB && b->k[1] == a ) return b->k[0];
      break;
    case O_SUB:
      if( a == b ) return kc( 0, w );
      if( isC( b ) && fits( w ) ) return bin( O_ADD, a, kc( (u64)0 - b->c, w ) );
      if( a->op == O_ADD && a->k[0] == b ) return a->k[1];
      if( a->op == O_ADD && a->k[1] == b ) return a->k[0];
      if( a->op == O_ADD && isC( a->k[1] ) ) return bin( O_ADD, bin( O_SUB, a->k[0], b ), a->k[1] );
      if( b->op == O_ADD && isC( b->k[1] ) && fits( w ) ) return bin( O_ADD, bin( O_SUB, a, b->k[0] ), kc( (u64)0 - b->k[1]->c, w ) );
      break;
    case O_MUL:
      if( isC( b, 0 ) ) return b;
      if( isC( b, 1 ) ) return a;
      if( isC( b ) && a->op == O_MUL && isC( a->k[1] ) && fits( w ) ) return bin( O_MUL, a->k[0], kc( a->k[1]->c * b->c, w ) );
      if( isC( b ) && a->op == O_ADD && isC( a->k[1] ) && fits( w ) ) return bin( O_ADD, bin( O_MUL, a->k[0], b ), kc( a->k[1]->c * b->c, w ) );
      break;
    case O_UDIV: if( isC( b, 1 ) ) return a; break;
    case O_SDIV: if( isC( b, 1 ) && w > 1 ) return a; break;
    case O_UREM: if( isC( b, 1 ) ) return kc( 0, w ); break;
    case O_AND:
      if( a == b ) return a;
      if( isC( b, 0 ) ) return b;
      if( isC( b, maskw( w ) ) && fits( w ) ) return a;
      if( isC( b ) && a->op == O_ZEXT && ( b->c & maskw( a->k[0]->w ) ) == maskw( a->k[0]->w ) ) return a;
      if( w == 1 && ( ( a->op == O_XOR && isC( a->k[1], 1 ) && a->k[0] == b ) || ( b->op == O_XOR && isC( b->k[1], 1 ) && b->k[0] == a ) ) ) return kc( 0, 1 );
      break;
    case O_OR:
      if( a == b ) return a;
      if( isC( b, 0 ) ) return a;
      if( isC( b, maskw( w ) ) && fits( w ) ) return b;
      if( w == 1 && ( ( a->op == O_XOR && isC( a->k[1], 1 ) && a->k[0] == b ) || ( b->op == O_XOR && isC( b->k[1], 1 ) && b->k[0] == a ) ) ) return kc( 1, 1 );
      break;
    case O_XOR:
      if( a == b ) return kc( 0, w );
      if( isC( b, 0 ) ) return a;
      if( isC( b ) && a->op == O_XOR && isC( a->k[1] ) && fits( w ) ) return bin( O_XOR, a->k[0], kc( a->k[1]->c ^ b->c, w ) );
      break;
    case O_SHL:
      if( isC( b, 0 ) ) return a;
      if( isC( b ) && fits( w ) ) return b->c >= w ? kc( 0, w ) : bin( O_MUL, a, kc( 1ull << b->c, w ) );
      break;
    case O_LSHR: case O_ASHR:
      if( isC( b, 0 ) ) return a;
      if( op == O_LSHR && isC( b ) && fits( w ) && b->c < w ) return zext( extract( a, (unsigned)b->c, w - (unsigned)b->c ), w );
      if( op == O_ASHR && isC( b ) && fits( w ) && b->c < w ) return sext( extract( a, (unsigned)b->c, w - (unsigned)b->c ), w );
      break;
    case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: return cmp( op, a, b );
    default: break;
  }
  if( commut( op ) && !isC( b ) && a->id > b->id ) std::swap( a, b );
  return P.mk( op, (u16)w, a, b, 0, 0 );
}

E ovf( Op op, E a, E b )
{
  if( isC( a ) && isC( b ) && a->w <= 64 ) return kc( ovfFold( op, a->c, b->c, a->w ), 1 );
  if( ( op == O_UMULO || op == O_SMULO ) && ( isC( a, 0 ) || isC( a, 1 ) || isC( b, 0 ) || isC( b, 1 ) ) && a->w > 1 ) return kc( 0, 1 );
  if( ( op == O_UADDO || op == O_SADDO ) && ( isC( a, 0 ) || isC( b, 0 ) ) ) return kc( 0, 1 );
  if( ( op == O_USUBO || op == O_SSUBO ) && isC( b, 0 ) ) return kc( 0, 1 );
  return P.mk( op, 1, a, b, 0, 0 );
}

E fbin( Op op, E a, E b )
{
  if( isC( a ) && ( !b || isC( b ) ) ) return kc( foldFp( op, a->c, b ? b->c : 0, a->w ), a->w );
  if( ( op == O_FADD || op == O_FMUL ) && a->id > b->id ) std::swap( a, b );
  return P.mk( op, a->w, a, b, 0, 0 );
}
static bool isBits( E e, int depth )
{
  switch( e->op )
  {
    case O_CONST: case O_SYM: return true;
    case O_ITE: return depth > 0 && isBits( e->k[1], depth - 1 ) && isBits( e->k[2], depth - 1 );
    case O_EXTRACT: case O_ZEXT: return depth > 0 && isBits( e->k[0], depth - 1 );
    case O_CONCAT: case O_AND: case O_OR: case O_XOR: return depth > 0 && isBits( e->k[0], depth - 1 ) && isBits( e->k[1], depth - 1 );
    default: return false;
  }
}
E fcmpE( Op op, E a, E b )
{
  if( isC( a ) && isC( b ) ) return kc( foldFp( op, a->c, b->c, a->w ), 1 );
  if( ( a->w == 64 || a->w == 32 ) && a->w == b->w && isBits( a, 12 ) && isBits( b, 12 ) )
  {
    // values that are not the result of floating-point arithmetic: compare the bit patterns as IEEE 754 defines it
    unsigned const w = a->w; u64 const inf = w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull;
    E const m = kc( maskw( w ) >> 1, w ), one = kc( 1, 1 ); auto inv = [&]( E x ) { return bin( O_XOR, x, one ); };
    auto isnan = [&]( E x ) { return cmp( O_ULT, kc( inf, w ), bin( O_AND, x, m ) ); };
    E const num = inv( bin( O_OR, isnan( a ), isnan( b ) ) );
    if( op == O_FUNO ) return inv( num );
    E const zero = cmp( O_EQ, bin( O_AND, bin( O_OR, a, b ), m ), kc( 0, w ) ), same = bin( O_OR, cmp( O_EQ, a, b ), zero );
    if( op == O_FEQ ) return bin( O_AND, num, same );
    E const sa = extract( a, w - 1, 1 ), sb = extract( b, w - 1, 1 );
    // of two negative numbers the one with the larger pattern is smaller; of different signs the negative one
    E const less = ite( bin( O_XOR, sa, sb ), bin( O_AND, sa, inv( zero ) ), ite( sa, cmp( O_ULT, b, a ), cmp( O_ULT, a, b ) ) );
    if( op == O_FLT ) return bin( O_AND, num, less );
    return bin( O_AND, num, bin( O_OR, less, same ) );
  }
  return P.mk( op, 1, a, b, 0, 0 );
}

static bool rexact( Op op, double x, double y, double & r )
{
  std::feclearexcept( FE_ALL_EXCEPT );
  volatile double vx = x, vy = y, vr;
  switch( op )
  {
    case O_RADD: vr = vx + vy; break; case O_RSUB: vr = vx - vy; break; case O_RMUL: vr = vx * vy; break;
    case O_RDIV: if( y == 0 ) return false; vr = vx / vy; break;
    default: return false;
  }
  if( std::fetestexcept( FE_INEXACT | FE_OVERFLOW | FE_UNDERFLOW | FE_INVALID | FE_DIVBYZERO ) ) return false;
  r = vr; return true;
}
E rbin( Op op, E a, E b )
{
  if( a->op == O_RCONST && b->op == O_RCONST ) { double r; if( rexact( op, asD( a->c ), asD( b->c ), r ) ) return rconst( r ); }
  double bc = b->op == O_RCONST ? asD( b->c ) : NAN, ac = a->op == O_RCONST ? asD( a->c ) : NAN;
  if( op == O_RADD ) { if( bc == 0 ) return a; if( ac == 0 ) return b; if( a->id > b->id ) std::swap( a, b ); }
  if( op == O_RSUB ) { if( bc == 0 ) return a; if( a == b ) return rconst( 0 ); }
  if( op == O_RMUL ) { if( bc == 1 ) return a; if( ac == 1 ) return b; if( bc == 0 ) return b; if( ac == 0 ) return a; if( a->id > b->id ) std::swap( a, b ); }
  if( op == O_RDIV ) { if( bc == 1 ) return a; }
  return P.mk( op, WREAL, a, b, 0, 0 );
}
E rcmp( Op op, E a, E b )
{
  if( a == b ) return kc( op != O_RLT, 1 );
  if( a->op == O_RCONST && b->op == O_RCONST )
  {
    double x = asD( a->c ), y = asD( b->c );
    return kc( op == O_RLT ? x < y : op == O_RLE ? x <= y : x == y, 1 );
  }
  return P.mk( op, 1, a, b, 0, 0 );
}
E uf( std::string const & name, E a, E b, unsigned w )
{
  u64 id = 0;
  for(; id < P.ufNames.size(); ++id ) if( P.ufNames[ id ] == name ) break;
  if( id == P.ufNames.size() ) P.ufNames.push_back( name );
  return P.mk( O_UF, (u16)w, a, b, 0, id );
}

u64 Evaluator::eval( E e )
{
  switch( e->op )
  {
    case O_CONST: return e->c;
    case O_SYM: return e->c < as->size() ? ( *as )[ e->c ] & maskw( e->w ) : 0;
    default: break;
  }
  if( e->id >= ep.size() ) { ep.resize( P.nodes.size() + 1024, 0 ); val.resize( ep.size(), 0 ); }
  if( ep[ e->id ] == epoch ) return val[ e->id ];
  u64 r = 0; unsigned w = e->w; bool ok;
  if( w > 64 && w != WREAL ) { real = true; return 0; }
  switch( e->op )
  {
    case O_ADD: case O_SUB: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR:
      r = foldBin( e->op, eval( e->k[0] ), eval( e->k[1] ), w, ok ); break;
    case O_UDIV: { u64 a = eval( e->k[0] ), b = eval( e->k[1] ); r = b ? a / b : maskw( w ); break; }
    case O_UREM: { u64 a = eval( e->k[0] ), b = eval( e->k[1] ); r = b ? a % b : a; break; }
    case O_SDIV: { i64 a = sx( eval( e->k[0] ), w ), b = sx( eval( e->k[1] ), w ); r = b == 0 ? ( a < 0 ? 1 : maskw( w ) ) : b == -1 ? (u64)0 - (u64)a : (u64)( a / b ); r &= maskw( w ); break; }
    case O_SREM: { i64 a = sx( eval( e->k[0] ), w ), b = sx( eval( e->k[1] ), w ); r = b == 0 ? (u64)a : b == -1 ? 0 : (u64)( a % b ); r &= maskw( w ); break; }
    case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE:
      r = foldBin( e->op, eval( e->k[0] ), eval( e->k[1] ), e->k[0]->w, ok ); break;
    case O_ITE: r = eval( e->k[0] ) ? eval( e->k[1] ) : eval( e->k[2] ); break;
    case O_ZEXT: r = eval( e->k[0] ); break;
    case O_SEXT: r = (u64)sx( eval( e->k[0] ), e->k[0]->w ) & maskw( w ); break;
    case O_EXTRACT: r = ( eval( e->k[0] ) >> e->c ) & maskw( w ); break;
    case O_CONCAT: r = ( eval( e->k[0] ) << e->k[1]->w ) | eval( e->k[1] ); break;
    case O_UADDO: case O_SADDO: case O_USUBO: case O_SSUBO: case O_UMULO: case O_SMULO:
      r = ovfFold( e->op, eval( e->k[0] ), eval( e->k[1] ), e->k[0]->w ); break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: r = foldFp( e->op, eval( e->k[0] ), eval( e->k[1] ), w ); break;
    case O_FSQRT: r = foldFp( e->op, eval( e->k[0] ), 0, w ); break;
    case O_FLT: case O_FLE: case O_FEQ: case O_FUNO: r = foldFp( e->op, eval( e->k[0] ), eval( e->k[1] ), e->k[0]->w ); break;
    case O_F2F: { u64 a = eval( e->k[0] ); r = w == 64 ? dBits( (double)asF( a ) ) : fBits( (float)asD( a ) ); break; }
    case O_S2F: { i64 a = sx( eval( e->k[0] ), e->k[0]->w ); r = w == 64 ? dBits( (double)a ) : fBits( (float)a ); break; }
    case O_U2F: { u64 a = eval( e->k[0] ); r = w == 64 ? dBits( (double)a ) : fBits( (float)a ); break; }
    case O_F2S: { u64 a = eval( e->k[0] ); double d = e->k[0]->w == 64 ? asD( a ) : asF( a ); if( std::fabs( d ) < 9.2e18 ) r = (u64)(i64)d & maskw( w ); else real = true; break; }
    case O_F2U: { u64 a = eval( e->k[0] ); double d = e->k[0]->w == 64 ? asD( a ) : asF( a ); if( d > -1 && d < 1.8e19 ) r = (u64)d & maskw( w ); else real = true; break; }
    default: real = true; r = 0; break;
  }
  if( real ) return 0;
  if( ep.size() <= e->id ) { ep.resize( P.nodes.size() + 1024, 0 ); val.resize( ep.size(), 0 ); }
  ep[ e->id ] = epoch; val[ e->id ] = r;
  return r;
}
