// Z3 back end of lvsym.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <chrono>
#include <unordered_set>

static inline double nowS()
{ return std::chrono::duration< double >( std::chrono::steady_clock::now().time_since_epoch() ).count(); }

enum SatRes { SR_SAT, SR_UNSAT, SR_UNKNOWN };

struct Solver
{
  Z3_context ctx; Z3_solver inc; Z3_solver fresh = nullptr;
  bool freshMode = false;       // non-incremental (floating point, reals)
  bool realMode = false;        // nonlinear real arithmetic: use the nlsat based solver first
  unsigned timeoutMs = 20000;
  std::vector< Z3_ast > cb, cbv, cfp, cre;   // caches by node id
  std::vector< E > stack;
  std::vector< Z3_func_decl > ufd;
  std::vector< E > lemmas; std::unordered_set< u32 > lemmaDone;
  u64 queries = 0, satN = 0, unsatN = 0, unknownN = 0; double time = 0, maxTime = 0;
  std::string dumpDir; unsigned dumpEvery = 0; u64 dumped = 0;

  Solver()
  {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context( cfg );
    Z3_del_config( cfg );
    Z3_set_error_handler( ctx, []( Z3_context c, Z3_error_code e ) { fprintf( stderr, "z3 error %d: %s\n", (int)e, Z3_get_error_msg( c, e ) ); abort(); } );
    const char * sv = getenv( "LV_SOLVER" );
    inc = sv && !strcmp( sv, "bv" ) ? Z3_mk_solver_for_logic( ctx, Z3_mk_string_symbol( ctx, "QF_BV" ) ) : sv && !strcmp( sv, "fd" ) ? Z3_mk_solver_for_logic( ctx, Z3_mk_string_symbol( ctx, "QF_FD" ) ) : sv && !strcmp( sv, "def" ) ? Z3_mk_solver( ctx ) : Z3_mk_simple_solver( ctx );
    Z3_solver_inc_ref( ctx, inc );
    setTimeout( inc );
  }
  void setTimeout( Z3_solver s )
  {
    Z3_params p = Z3_mk_params( ctx ); Z3_params_inc_ref( ctx, p );
    Z3_params_set_uint( ctx, p, Z3_mk_string_symbol( ctx, "timeout" ), timeoutMs );
    Z3_solver_set_params( ctx, s, p ); Z3_params_dec_ref( ctx, p );
  }
  Z3_ast keep( std::vector< Z3_ast > & v, E e, Z3_ast a )
  {
    Z3_inc_ref( ctx, a );
    if( v.size() <= e->id ) v.resize( P.nodes.size() + 256, nullptr );
    v[ e->id ] = a; return a;
  }
  Z3_ast get( std::vector< Z3_ast > & v, E e ) { return e->id < v.size() ? v[ e->id ] : nullptr; }
  Z3_sort bvs( unsigned w ) { return Z3_mk_bv_sort( ctx, w ); }
  Z3_sort fps( unsigned w ) { return w == 64 ? Z3_mk_fpa_sort_double( ctx ) : Z3_mk_fpa_sort_single( ctx ); }
  Z3_ast rne() { return Z3_mk_fpa_rne( ctx ); }

  Z3_ast tb( E e )   // width 1 as Bool
  {
    if( Z3_ast a = get( cb, e ) ) return a;
    Z3_ast r;
    switch( e->op )
    {
      case O_CONST: r = e->c ? Z3_mk_true( ctx ) : Z3_mk_false( ctx ); break;
      case O_AND: { Z3_ast x[2] = { tb( e->k[0] ), tb( e->k[1] ) }; r = Z3_mk_and( ctx, 2, x ); break; }
      case O_OR: { Z3_ast x[2] = { tb( e->k[0] ), tb( e->k[1] ) }; r = Z3_mk_or( ctx, 2, x ); break; }
      case O_XOR: if( isC( e->k[1], 1 ) ) r = Z3_mk_not( ctx, tb( e->k[0] ) ); else r = Z3_mk_xor( ctx, tb( e->k[0] ), tb( e->k[1] ) ); break;
      case O_EQ: r = e->k[0]->w == 1 ? Z3_mk_iff( ctx, tb( e->k[0] ), tb( e->k[1] ) ) : Z3_mk_eq( ctx, tv( e->k[0] ), tv( e->k[1] ) ); break;
      case O_ULT: r = Z3_mk_bvult( ctx, tv( e->k[0] ), tv( e->k[1] ) ); break;
      case O_ULE: r = Z3_mk_bvule( ctx, tv( e->k[0] ), tv( e->k[1] ) ); break;
      case O_SLT: r = Z3_mk_bvslt( ctx, tv( e->k[0] ), tv( e->k[1] ) ); break;
      case O_SLE: r = Z3_mk_bvsle( ctx, tv( e->k[0] ), tv( e->k[1] ) ); break;
      case O_ITE: r = Z3_mk_ite( ctx, tb( e->k[0] ), tb( e->k[1] ), tb( e->k[2] ) ); break;
      case O_UADDO: r = Z3_mk_not( ctx, Z3_mk_bvadd_no_overflow( ctx, tv( e->k[0] ), tv( e->k[1] ), false ) ); break;
      case O_USUBO: r = Z3_mk_bvult( ctx, tv( e->k[0] ), tv( e->k[1] ) ); break;
      case O_UMULO: r = Z3_mk_not( ctx, Z3_mk_bvmul_no_overflow( ctx, tv( e->k[0] ), tv( e->k[1] ), false ) ); break;
      case O_SADDO: case O_SSUBO:
      {
        unsigned w = e->k[0]->w;
        Z3_ast a = Z3_mk_sign_ext( ctx, 1, tv( e->k[0] ) ), b = Z3_mk_sign_ext( ctx, 1, tv( e->k[1] ) );
        Z3_ast s = e->op == O_SADDO ? Z3_mk_bvadd( ctx, a, b ) : Z3_mk_bvsub( ctx, a, b );
        r = Z3_mk_not( ctx, Z3_mk_eq( ctx, Z3_mk_extract( ctx, w, w, s ), Z3_mk_extract( ctx, w - 1, w - 1, s ) ) );
        break;
      }
      case O_SMULO:
      {
        Z3_ast x[2] = { Z3_mk_bvmul_no_overflow( ctx, tv( e->k[0] ), tv( e->k[1] ), true ), Z3_mk_bvmul_no_underflow( ctx, tv( e->k[0] ), tv( e->k[1] ) ) };
        r = Z3_mk_not( ctx, Z3_mk_and( ctx, 2, x ) );
        break;
      }
      case O_FLT: r = Z3_mk_fpa_lt( ctx, tf( e->k[0] ), tf( e->k[1] ) ); break;
      case O_FLE: r = Z3_mk_fpa_leq( ctx, tf( e->k[0] ), tf( e->k[1] ) ); break;
      case O_FEQ: r = Z3_mk_fpa_eq( ctx, tf( e->k[0] ), tf( e->k[1] ) ); break;
      case O_FUNO: { Z3_ast x[2] = { Z3_mk_fpa_is_nan( ctx, tf( e->k[0] ) ), Z3_mk_fpa_is_nan( ctx, tf( e->k[1] ) ) }; r = Z3_mk_or( ctx, 2, x ); break; }
      case O_RLT: r = Z3_mk_lt( ctx, tr( e->k[0] ), tr( e->k[1] ) ); break;
      case O_RLE: r = Z3_mk_le( ctx, tr( e->k[0] ), tr( e->k[1] ) ); break;
      case O_REQ: r = Z3_mk_eq( ctx, tr( e->k[0] ), tr( e->k[1] ) ); break;
      default: r = Z3_mk_eq( ctx, tv( e ), Z3_mk_unsigned_int64( ctx, 1, bvs( 1 ) ) ); break;
    }
    return keep( cb, e, r );
  }

  Z3_ast tv( E e )   // as bit-vector
  {
    if( Z3_ast a = get( cbv, e ) ) return a;
    Z3_ast r;
    switch( e->op )
    {
      case O_CONST: r = Z3_mk_unsigned_int64( ctx, e->c, bvs( e->w ) ); break;
      case O_SYM: { std::string n = "s" + std::to_string( e->c ); r = Z3_mk_const( ctx, Z3_mk_string_symbol( ctx, n.c_str() ), bvs( e->w ) ); break; }
      case O_EXTRACT: r = Z3_mk_extract( ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, tv( e->k[0] ) ); break;
      case O_CONCAT: r = Z3_mk_concat( ctx, tv( e->k[0] ), tv( e->k[1] ) ); break;
      case O_ZEXT: r = Z3_mk_zero_ext( ctx, e->w - e->k[0]->w, tv( e->k[0] ) ); break;
      case O_SEXT: r = Z3_mk_sign_ext( ctx, e->w - e->k[0]->w, tv( e->k[0] ) ); break;
      default:
        if( e->w == 1 && e->op != O_UF )
        { r = Z3_mk_ite( ctx, tb( e ), Z3_mk_unsigned_int64( ctx, 1, bvs( 1 ) ), Z3_mk_unsigned_int64( ctx, 0, bvs( 1 ) ) ); break; }
        switch( e->op )
        {
#define B2( O, F ) case O: r = F( ctx, tv( e->k[0] ), tv( e->k[1] ) ); break;
          B2( O_ADD, Z3_mk_bvadd ) B2( O_SUB, Z3_mk_bvsub ) B2( O_MUL, Z3_mk_bvmul ) B2( O_UDIV, Z3_mk_bvudiv ) B2( O_SDIV, Z3_mk_bvsdiv )
          B2( O_UREM, Z3_mk_bvurem ) B2( O_SREM, Z3_mk_bvsrem ) B2( O_AND, Z3_mk_bvand ) B2( O_OR, Z3_mk_bvor ) B2( O_XOR, Z3_mk_bvxor )
          B2( O_SHL, Z3_mk_bvshl ) B2( O_LSHR, Z3_mk_bvlshr ) B2( O_ASHR, Z3_mk_bvashr )
#undef B2
          case O_ITE: r = Z3_mk_ite( ctx, tb( e->k[0] ), tv( e->k[1] ), tv( e->k[2] ) ); break;
          case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FSQRT: case O_FREM: case O_F2F: case O_S2F: case O_U2F:
            r = Z3_mk_fpa_to_ieee_bv( ctx, tf( e ) ); break;
          case O_F2S: r = Z3_mk_fpa_to_sbv( ctx, Z3_mk_fpa_rtz( ctx ), tf( e->k[0] ), e->w ); break;
          case O_F2U: r = Z3_mk_fpa_to_ubv( ctx, Z3_mk_fpa_rtz( ctx ), tf( e->k[0] ), e->w ); break;
          case O_UF:
          {
            Z3_sort ds[2]; Z3_ast as[2]; unsigned n = 0;
            for( int i = 0; i < 2; ++i ) if( e->k[i] ) { ds[ n ] = bvs( e->k[i]->w ); as[ n++ ] = tv( e->k[i] ); }
            std::string nm = P.ufNames[ e->c ] + "_" + std::to_string( e->w );
            Z3_func_decl d = Z3_mk_func_decl( ctx, Z3_mk_string_symbol( ctx, nm.c_str() ), n, ds, bvs( e->w ) );
            r = Z3_mk_app( ctx, d, n, as ); break;
          }
          default: fprintf( stderr, "lvsym: cannot translate op %d\n", e->op ); abort();
        }
    }
    return keep( cbv, e, r );
  }

  Z3_ast tf( E e )   // as floating point
  {
    if( Z3_ast a = get( cfp, e ) ) return a;
    Z3_ast r;
    switch( e->op )
    {
      case O_FADD: r = Z3_mk_fpa_add( ctx, rne(), tf( e->k[0] ), tf( e->k[1] ) ); break;
      case O_FSUB: r = Z3_mk_fpa_sub( ctx, rne(), tf( e->k[0] ), tf( e->k[1] ) ); break;
      case O_FMUL: r = Z3_mk_fpa_mul( ctx, rne(), tf( e->k[0] ), tf( e->k[1] ) ); break;
      case O_FDIV: r = Z3_mk_fpa_div( ctx, rne(), tf( e->k[0] ), tf( e->k[1] ) ); break;
      case O_FSQRT: r = Z3_mk_fpa_sqrt( ctx, rne(), tf( e->k[0] ) ); break;
      case O_F2F: r = Z3_mk_fpa_to_fp_float( ctx, rne(), tf( e->k[0] ), fps( e->w ) ); break;
      case O_S2F: r = Z3_mk_fpa_to_fp_signed( ctx, rne(), tv( e->k[0] ), fps( e->w ) ); break;
      case O_U2F: r = Z3_mk_fpa_to_fp_unsigned( ctx, rne(), tv( e->k[0] ), fps( e->w ) ); break;
      case O_ITE: r = Z3_mk_ite( ctx, tb( e->k[0] ), tf( e->k[1] ), tf( e->k[2] ) ); break;
      default: r = Z3_mk_fpa_to_fp_bv( ctx, tv( e ), fps( e->w ) ); break;
    }
    return keep( cfp, e, r );
  }

  Z3_ast tr( E e )   // as real
  {
    if( Z3_ast a = get( cre, e ) ) return a;
    Z3_ast r; Z3_ast x[2];
    auto two = [&]() { x[0] = tr( e->k[0] ); x[1] = tr( e->k[1] ); };
    switch( e->op )
    {
      case O_RCONST:
      {
        int ex; double m = std::frexp( asD( e->c ), &ex );
        i64 im = (i64)std::ldexp( m, 53 ); ex -= 53;
        while( im && !( im & 1 ) ) { im /= 2; ++ex; }
        r = Z3_mk_int64( ctx, im, Z3_mk_real_sort( ctx ) );
        if( ex != 0 && im )
        {
          Z3_ast p2 = Z3_mk_power( ctx, Z3_mk_int( ctx, 2, Z3_mk_real_sort( ctx ) ), Z3_mk_int( ctx, std::abs( ex ), Z3_mk_real_sort( ctx ) ) );
          p2 = Z3_simplify( ctx, p2 );
          Z3_ast y[2] = { r, p2 };
          r = Z3_simplify( ctx, ex > 0 ? Z3_mk_mul( ctx, 2, y ) : Z3_mk_div( ctx, r, p2 ) );
        }
        break;
      }
      case O_RSYM: { std::string n = "r" + std::to_string( e->c ); r = Z3_mk_const( ctx, Z3_mk_string_symbol( ctx, n.c_str() ), Z3_mk_real_sort( ctx ) ); break; }
      case O_RADD: two(); r = Z3_mk_add( ctx, 2, x ); break;
      case O_RSUB: two(); r = Z3_mk_sub( ctx, 2, x ); break;
      case O_RMUL: two(); r = Z3_mk_mul( ctx, 2, x ); break;
      case O_RDIV: two(); r = Z3_mk_div( ctx, x[0], x[1] ); break;
      case O_RITE: r = Z3_mk_ite( ctx, tb( e->k[0] ), tr( e->k[1] ), tr( e->k[2] ) ); break;
      case O_RFROMS: r = Z3_mk_int2real( ctx, Z3_mk_bv2int( ctx, tv( e->k[0] ), true ) ); break;
      case O_RFROMU: r = Z3_mk_int2real( ctx, Z3_mk_bv2int( ctx, tv( e->k[0] ), false ) ); break;
      case O_UF:
      {
        Z3_sort rs = Z3_mk_real_sort( ctx ); Z3_sort ds[2] = { rs, rs }; Z3_ast as[2]; unsigned n = 0;
        for( int i = 0; i < 2; ++i ) if( e->k[i] ) as[ n++ ] = tr( e->k[i] );
        std::string nm = P.ufNames[ e->c ] + "_r";
        Z3_func_decl d = Z3_mk_func_decl( ctx, Z3_mk_string_symbol( ctx, nm.c_str() ), n, ds, rs );
        r = Z3_mk_app( ctx, d, n, as ); break;
      }
      default: fprintf( stderr, "lvsym: cannot translate real op %d\n", e->op ); abort();
    }
    return keep( cre, e, r );
  }

  // Models: bit-vector symbols into `out` (by symbol index); real symbols into `rout` as decimal text.
  void readModel( Z3_solver s, std::vector< u64 > & out, std::map< u64, std::string > * rout )
  {
    Z3_model m = Z3_solver_get_model( ctx, s ); Z3_model_inc_ref( ctx, m );
    out.assign( P.syms.size(), 0 );
    unsigned n = Z3_model_get_num_consts( ctx, m );
    for( unsigned i = 0; i < n; ++i )
    {
      Z3_func_decl d = Z3_model_get_const_decl( ctx, m, i );
      Z3_symbol sy = Z3_get_decl_name( ctx, d );
      if( Z3_get_symbol_kind( ctx, sy ) != Z3_STRING_SYMBOL ) continue;
      std::string nm = Z3_get_symbol_string( ctx, sy );
      Z3_ast v = Z3_model_get_const_interp( ctx, m, d );
      if( !v ) continue;
      if( nm[0] == 's' && isdigit( nm[1] ) )
      {
        u64 x = 0; Z3_get_numeral_uint64( ctx, v, &x );
        u64 idx = std::stoull( nm.substr( 1 ) );
        if( idx < out.size() ) out[ idx ] = x;
      }
      else if( rout && nm[0] == 'r' && isdigit( nm[1] ) )
      { ( *rout )[ std::stoull( nm.substr( 1 ) ) ] = ( Z3_get_ast_kind( ctx, v ) == Z3_NUMERAL_AST || Z3_is_algebraic_number( ctx, v ) ) ? Z3_get_numeral_decimal_string( ctx, v, 40 ) : "?"; }
    }
    Z3_model_dec_ref( ctx, m );
  }

  void dump( Z3_solver s, SatRes r )
  {
    if( !dumpEvery || queries % dumpEvery || dumped >= 40 ) return;
    std::string f = dumpDir + "/q" + std::to_string( dumped++ ) + ( r == SR_SAT ? ".sat" : ".unsat" ) + ".smt2";
    FILE * o = fopen( f.c_str(), "w" );
    if( !o ) return;
    fprintf( o, "(set-logic ALL)\n%s(check-sat)\n", Z3_solver_to_string( ctx, s ) );
    fclose( o );
  }

  SatRes check( std::vector< E > const & pc, E extra, std::vector< u64 > * model, std::map< u64, std::string > * rmodel = nullptr )
  {
    double t0 = nowS(); ++queries;
    SatRes res;
    Z3_lbool r;
    if( freshMode )
    {
      Z3_solver s = realMode ? Z3_mk_solver_for_logic( ctx, Z3_mk_string_symbol( ctx, "QF_NRA" ) ) : Z3_mk_solver( ctx ); Z3_solver_inc_ref( ctx, s ); setTimeout( s );
      for( E c : pc ) Z3_solver_assert( ctx, s, tb( c ) );
      if( extra ) Z3_solver_assert( ctx, s, tb( extra ) );
      r = Z3_solver_check( ctx, s );
      res = r == Z3_L_TRUE ? SR_SAT : r == Z3_L_FALSE ? SR_UNSAT : SR_UNKNOWN;
      if( res == SR_SAT && model ) readModel( s, *model, rmodel );
      if( res != SR_UNKNOWN ) dump( s, res );
      Z3_solver_dec_ref( ctx, s );
    }
    else
    {
      size_t i = 0;
      while( i < stack.size() && i < pc.size() && stack[ i ] == pc[ i ] ) ++i;
      if( i < stack.size() ) { Z3_solver_pop( ctx, inc, (unsigned)( stack.size() - i ) ); stack.resize( i ); }
      for(; i < pc.size(); ++i ) { Z3_solver_push( ctx, inc ); Z3_solver_assert( ctx, inc, tb( pc[ i ] ) ); stack.push_back( pc[ i ] ); }
      if( extra ) { Z3_solver_push( ctx, inc ); Z3_solver_assert( ctx, inc, tb( extra ) ); }
      r = Z3_solver_check( ctx, inc );
      res = r == Z3_L_TRUE ? SR_SAT : r == Z3_L_FALSE ? SR_UNSAT : SR_UNKNOWN;
      if( res == SR_SAT && model ) readModel( inc, *model, rmodel );
      if( res != SR_UNKNOWN ) dump( inc, res );
      if( extra ) Z3_solver_pop( ctx, inc, 1 );
      if( res == SR_UNKNOWN )
      {
        // one more try with the default (tactic based) solver
        Z3_solver s = Z3_mk_solver( ctx ); Z3_solver_inc_ref( ctx, s ); setTimeout( s );
        for( E c : pc ) Z3_solver_assert( ctx, s, tb( c ) );
        if( extra ) Z3_solver_assert( ctx, s, tb( extra ) );
        r = Z3_solver_check( ctx, s );
        res = r == Z3_L_TRUE ? SR_SAT : r == Z3_L_FALSE ? SR_UNSAT : SR_UNKNOWN;
        if( res == SR_SAT && model ) readModel( s, *model, rmodel );
        Z3_solver_dec_ref( ctx, s );
      }
    }
    if( getenv( "LV_SLOW" ) && nowS() - t0 > atof( getenv( "LV_SLOW" ) ) ) fprintf( stderr, "[slow] %.3f %d\n", nowS() - t0, (int)res );
    double dt = nowS() - t0; time += dt; if( dt > maxTime ) maxTime = dt;
    if( res == SR_SAT ) ++satN; else if( res == SR_UNSAT ) ++unsatN; else ++unknownN;
    return res;
  }
};
