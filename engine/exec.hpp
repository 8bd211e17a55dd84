// Execution of precompiled instructions, external functions, and the main program of lvsym.
typedef std::vector< Val > Args;

static inline Val get( Frame & f, Opd const & o ) { return o.slot < 0 ? o.v : f.r[ o.slot ]; }

static void observeUndef( State & s, const char * what ) { report( s, "uninit", std::string( what ) + " depends on an uninitialised value", nullptr ); endPath(); }

static E toReal( State & s, Val const & v )
{
  if( v.isU() ) observeUndef( s, "floating point operation" );
  if( v.isS() && v.w == WREAL ) return v.e;
  if( v.isC() && v.w == 64 && asD( v.c ) == 1.73205080756887729352744 )       // the literal is read as the exact square root of three
  {
    static E r = newSym( "root3", WREAL ); E c = rcmp( O_REQ, rbin( O_RMUL, r, r ), rconst( 3 ) );
    if( std::find( s.pc.begin(), s.pc.end(), c ) == s.pc.end() ) { s.pc.push_back( rcmp( O_RLE, rconst( 0 ), r ) ); s.pc.push_back( c ); s.modelOk = false; }
    return r;
  }
  if( v.isC() ) return rconst( v.w == 32 ? (double)asF( v.c ) : asD( v.c ) );
  unsupported( s, "bit pattern used as a real" );
}

static bool condOf( State & s, Val v )
{
  if( v.isU() ) observeUndef( s, "branch" );
  if( v.isC() ) return v.c & 1;
  return decide( s, v.e );
}

static E boolE( State & s, Val v )       // v != 0
{
  if( v.isU() ) observeUndef( s, "condition" );
  E e = v.toE();
  return e->w == 1 ? e : bnot( eq( e, kc( 0, e->w ) ) );
}

static std::string cstr( State & s, Val p )
{
  if( !p.isC() || !p.c ) return "?";
  u32 o = p.prov ? p.prov - 1 : (u32)( ( p.c >> 32 ) - 1 );
  if( o >= s.objs.size() || !s.objs[ o ].d ) return "?";
  std::string r; u64 off = p.c - baseOf( o );
  while( off < s.objs[ o ].size && s.objs[ o ].d->init[ off ] == 1 && s.objs[ o ].d->b[ off ] ) r += (char)s.objs[ o ].d->b[ off++ ];
  return r;
}

static E symFor( State & s, std::string const & name, unsigned w )
{
  std::string k = name + ":" + std::to_string( w );
  E & e = symCache[ { s.symOrd++, k } ];
  if( !e ) e = newSym( name, w );
  return e;
}

static u32 allocHeap( State & s, Val & n, ObjKind k )
{
  if( n.isU() ) observeUndef( s, "allocation size" );
  if( n.isS() ) concretize( s, n );
  if( n.c > ( 64u << 20 ) ) { report( s, "memory", "allocation of an implausible size", nullptr ); endPath(); }
  u32 o = newObj( s, n.c, k, curI( s ) ); ++s.liveHeap; return o;
}

static void freeHeap( State & s, Val p, ObjKind k )
{
  if( p.isU() ) observeUndef( s, "deallocation" );
  if( p.isC() && p.c == 0 ) return;
  u32 o; u64 off;
  resolve( s, p, 0, true, o, off, true );
  Obj & ob = s.objs[ o ];
  if( ob.kind < OK_HEAP || ob.kind == OK_FUNC ) { report( s, "memory", "deallocation of something not on the heap", nullptr ); endPath(); }
  if( off != 0 ) { report( s, "memory", "deallocation of an interior pointer", nullptr ); endPath(); }
  if( ob.kind != k ) { report( s, "memory", "mismatched allocation and deallocation functions", nullptr ); endPath(); }
  raceCheck( s, o, 0, ob.size, true );
  ob.alive = false; releaseObj( ob ); --s.liveHeap;
}

static void memCopy( State & s, Val d, Val src, Val n, bool move )
{
  if( n.isU() ) observeUndef( s, "size of a memory copy" );
  if( n.isC() && n.c == 0 ) return;
  if( n.isS() )
  {
    // bound the size by the objects before enumerating it
    E zero = eq( n.e, kc( 0, n.w ) );
    if( decide( s, zero ) ) return;
    u32 o; u64 off; Val dd = d, ss = src;
    resolve( s, dd, 1, true, o, off ); u64 lim = s.objs[ o ].size - off;
    checkNot( s, cmp( O_ULT, kc( lim, n.w ), n.e ), "memory", "out of bounds write (memory copy)" );
    resolve( s, ss, 1, false, o, off ); lim = s.objs[ o ].size - off;
    checkNot( s, cmp( O_ULT, kc( lim, n.w ), n.e ), "memory", "out of bounds read (memory copy)" );
    concretize( s, n );
  }
  u32 so, dob; u64 soff, doff;
  resolve( s, src, n.c, false, so, soff ); resolve( s, d, n.c, true, dob, doff );
  if( !move && so == dob && soff != doff && soff < doff + n.c && doff < soff + n.c ) { report( s, "memory", "memcpy of overlapping ranges", nullptr ); endPath(); }
  raceCheck( s, so, soff, n.c, false ); raceCheck( s, dob, doff, n.c, true );
  copyMem( s, so, soff, dob, doff, n.c );
}

static void memSet( State & s, Val d, Val v, Val n )
{
  if( n.isU() ) observeUndef( s, "size of a memory fill" );
  if( n.isC() && n.c == 0 ) return;
  if( n.isS() )
  {
    if( decide( s, eq( n.e, kc( 0, n.w ) ) ) ) return;
    u32 o; u64 off; Val dd = d; resolve( s, dd, 1, true, o, off );
    checkNot( s, cmp( O_ULT, kc( s.objs[ o ].size - off, n.w ), n.e ), "memory", "out of bounds write (memory fill)" );
    concretize( s, n );
  }
  u32 o; u64 off; resolve( s, d, n.c, true, o, off ); raceCheck( s, o, off, n.c, true );
  Val b = v;
  if( b.isC() ) b = Val::conc( b.c & 255, 8 ); else if( b.isS() ) b = Val::of( extract( b.e, 0, 8 ) );
  ObjData * dt = mut( s.objs[ o ] ); clearCells( dt, off, n.c );
  if( b.isC() ) { memset( &dt->b[ off ], (int)b.c, n.c ); memset( &dt->init[ off ], 1, n.c ); }
  else if( b.isU() ) memset( &dt->init[ off ], 0, n.c );
  else for( u64 i = 0; i < n.c; ++i ) writeMem( s, o, off + i, b, 1 );
}

static void pathSample( State & s, bool aborted )
{
  ++nPaths; if( aborted ) ++nAborts;
  ++sampleSeen;
  unsigned idx = (unsigned)samples.size();
  if( samples.size() >= opt.samples )
  {
    u64 h = sampleSeen * 0x9e3779b97f4a7c15ull; h ^= h >> 29; u64 r = h % sampleSeen;
    if( r >= opt.samples ) return;
    idx = (unsigned)r;
  }
  Sample sm; sm.aborted = aborted;
  std::map< u64, std::string > rm;
  for( E p : s.pc ) (void)p;
  bool garbage = false;
  if( opt.real )
  {
    if( nPaths > 6 ) return;
    std::vector< u64 > m; if( S->check( s.pc, nullptr, &m, &rm ) != SR_SAT ) return;
    sm.in = inputsOf( s, m, rm );
  }
  else
  {
    sm.in = inputsOf( s, s.model, rm );
    EV.begin( &s.model );
    for( Val & v : s.obs ) { if( v.isU() ) { sm.obs.push_back( 0 ); garbage = true; } else sm.obs.push_back( v.isC() ? v.c : EV.eval( v.e ) ); }
    if( EV.real || garbage ) return;
  }
  if( idx < samples.size() ) samples[ idx ] = sm; else samples.push_back( sm );
}

static void onAbort( State & s, std::string const & what )
{
  if( s.expect )
  {
    checkNot( s, bnot( s.expectCond ), "abort", "the operation aborted although its precondition held (" + what + ")" );
    pathSample( s, true ); endPath();
  }
  report( s, "abort", what, nullptr ); endPath();
}

static void finishEntry( State & s )
{
  if( s.expect ) checkNot( s, s.expectCond, "noabort", "the operation completed although it had to be rejected" );
  if( !s.noLeak && (i64)s.liveHeap != s.heapBase )
  {
    std::string site;
    for( Obj & o : s.objs ) if( o.alive && o.kind >= OK_HEAP && o.kind != OK_FUNC ) { site = locOf( o.site ); }
    report( s, "leak", "memory allocated at " + site + " is never released", nullptr );
  }
  pathSample( s, false );
  endPath();
}

// ---------------------------------------------------------------------------------------------------------------- threads
static void switchTo( State & s, std::vector< u32 > const & run, bool curRunnable )
{
  // run: candidates; forks for all but the first
  std::vector< u32 > c = run;
  if( curRunnable && s.preempts >= opt.preempt ) c = { s.cur };
  for( size_t i = 1; i < c.size(); ++i )
  {
    State * o = fork( *&s ); o->forced.clear(); if( curRunnable && c[ i ] != s.cur ) ++o->preempts;
    o->in.push_back( { "sched", nullptr, c[ i ], 32, 2 } ); o->cur = c[ i ]; work.push_back( o );
  }
  if( curRunnable && c[ 0 ] != s.cur ) ++s.preempts;
  if( c.size() > 1 || true ) s.in.push_back( { "sched", nullptr, c[ 0 ], 32, 2 } );
  s.cur = c[ 0 ];
}
static std::vector< u32 > runnable( State & s )
{
  std::vector< u32 > r;
  for( u32 i = 1; i < s.th.size(); ++i ) if( !s.th[ i ].done ) r.push_back( i );
  return r;
}

// ---------------------------------------------------------------------------------------------------------------- externals
typedef bool ( *Ext )( State &, Frame &, const Ins &, Args & );    // returns false when control was transferred (ip already set)
static void setRes( Frame & f, const Ins & i, Val v ) { if( i.dst >= 0 && i.n >= 1 ) { if( v.w != i.w && v.isC() ) v = Val::conc( v.c, i.w, v.prov ); f.r[ i.dst ] = v; } }
static Val heapPtr( u32 o ) { return Val::conc( baseOf( o ), 64, o + 1 ); }

static std::unordered_map< u64, E > acosArg; static std::unordered_map< u64, std::pair< E, E > > trig;
static Val fmath( State & s, std::string const & nm, Val a, Val const * b, unsigned w )
{
  if( a.isU() || ( b && b->isU() ) ) observeUndef( s, "math function" );
  if( opt.real )
  {
    E x = toReal( s, a );
    if( nm == "sqrt" )
    {
      if( x->op == O_RCONST ) { double r = std::sqrt( asD( x->c ) ); if( std::fma( r, r, -asD( x->c ) ) == 0 ) return Val::of( rconst( r ) ); }
      assume( s, rcmp( O_RLE, rconst( 0 ), x ) );
      E r = symFor( s, "sqrt#" + std::to_string( x->id ), WREAL );
      s.pc.push_back( rcmp( O_RLE, rconst( 0 ), r ) ); s.pc.push_back( rcmp( O_REQ, rbin( O_RMUL, r, r ), x ) );
      s.modelOk = false;
      return Val::of( r );
    }
    // trigonometry through its algebraic laws: sin^2 + cos^2 = 1, and cos( 3t ) = 4 cos^3 t - 3 cos t for t = acos( x ) / 3
    if( nm == "acos" )
    {
      assume( s, rcmp( O_RLE, rconst( -1 ), x ) ); assume( s, rcmp( O_RLE, x, rconst( 1 ) ) );
      E r = symFor( s, "acos#" + std::to_string( x->id ), WREAL ); acosArg[ r->id ] = x; s.pc.push_back( rcmp( O_RLE, rconst( 0 ), r ) ); s.pc.push_back( rcmp( O_RLE, r, rconst( 3.25 ) ) ); s.modelOk = false;
      return Val::of( r );
    }
    if( nm == "sin" || nm == "cos" )
    {
      auto & e = trig[ x->id ]; if( !e.first ) e = { newSym( "cos#" + std::to_string( x->id ), WREAL ), newSym( "sin#" + std::to_string( x->id ), WREAL ) };
      E c = e.first, n = e.second;
      s.pc.push_back( rcmp( O_REQ, rbin( O_RADD, rbin( O_RMUL, c, c ), rbin( O_RMUL, n, n ) ), rconst( 1 ) ) ); s.modelOk = false;
      if( x->op == O_RDIV && x->k[ 1 ]->op == O_RCONST && asD( x->k[ 1 ]->c ) == 3 && acosArg.count( x->k[ 0 ]->id ) )
      {
        E c3 = rbin( O_RMUL, c, rbin( O_RMUL, c, c ) );
        s.pc.push_back( rcmp( O_REQ, rbin( O_RSUB, rbin( O_RMUL, rconst( 4 ), c3 ), rbin( O_RMUL, rconst( 3 ), c ) ), acosArg[ x->k[ 0 ]->id ] ) );
        s.pc.push_back( rcmp( O_RLE, rconst( 0.5 ), c ) ); s.pc.push_back( rcmp( O_RLE, rconst( 0 ), n ) );
      }
      return Val::of( nm == "sin" ? n : c );
    }
    if( nm == "fabs" ) return Val::of( ite( rcmp( O_RLT, x, rconst( 0 ) ), rbin( O_RSUB, rconst( 0 ), x ), x ) );
    return Val::of( uf( nm, x, b ? toReal( s, *b ) : nullptr, WREAL ) );
  }
  if( nm == "fabs" ) { if( a.isC() ) return Val::conc( a.c & ( maskw( w ) >> 1 ), w ); return Val::of( bin( O_AND, a.toE(), kc( maskw( w ) >> 1, w ) ) ); }
  if( nm == "sqrt" ) return Val::of( fbin( O_FSQRT, a.toE(), nullptr ) );
  if( a.isC() && ( !b || b->isC() ) )
  {
    double x = w == 64 ? asD( a.c ) : asF( a.c ), y = b ? ( w == 64 ? asD( b->c ) : asF( b->c ) ) : 0, r = 0;
    auto ret = [&]( double rd, float rf ) { return w == 64 ? Val::conc( dBits( rd ), 64 ) : Val::conc( fBits( rf ), 32 ); };
#define M1( N ) if( nm == #N ) return ret( ::N( x ), ::N##f( (float)x ) );
    M1( sin ) M1( cos ) M1( tan ) M1( asin ) M1( acos ) M1( atan ) M1( exp ) M1( log ) M1( floor ) M1( ceil ) M1( round ) M1( trunc ) M1( cbrt ) M1( log10 ) M1( exp2 ) M1( log2 )
#undef M1
    if( nm == "atan2" ) return ret( ::atan2( x, y ), ::atan2f( (float)x, (float)y ) );
    if( nm == "pow" ) return ret( ::pow( x, y ), ::powf( (float)x, (float)y ) );
    (void)r;
  }
  return Val::of( uf( nm + std::to_string( w ), a.toE(), b ? b->toE() : nullptr, w ) );
}

static std::unordered_map< std::string, Ext > externs;
static void initExterns()
{
#define EXT( NAME ) externs[ NAME ] = []( State & s, Frame & f, const Ins & i, Args & a ) -> bool { (void)s; (void)f; (void)i; (void)a;
#define END return true; };
  for( const char * n : { "malloc" } ) EXT( n ) u32 o = allocHeap( s, a[ 0 ], OK_MALLOC ); setRes( f, i, heapPtr( o ) ); END
  for( const char * n : { "_Znwm", "_ZnwmRKSt9nothrow_t" } ) EXT( n ) u32 o = allocHeap( s, a[ 0 ], OK_HEAP ); setRes( f, i, heapPtr( o ) ); END
  for( const char * n : { "_Znam", "_ZnamRKSt9nothrow_t" } ) EXT( n ) u32 o = allocHeap( s, a[ 0 ], OK_HEAPARR ); setRes( f, i, heapPtr( o ) ); END
  EXT( "free" ) freeHeap( s, a[ 0 ], OK_MALLOC ); END
  for( const char * n : { "_ZdlPv", "_ZdlPvm" } ) EXT( n ) freeHeap( s, a[ 0 ], OK_HEAP ); END
  for( const char * n : { "_ZdaPv", "_ZdaPvm" } ) EXT( n ) freeHeap( s, a[ 0 ], OK_HEAPARR ); END
  EXT( "calloc" )
    Val n = Val::of( bin( O_MUL, a[ 0 ].toE(), a[ 1 ].toE() ) ); u32 o = allocHeap( s, n, OK_MALLOC );
    memset( s.objs[ o ].d->init.data(), 1, s.objs[ o ].size ); setRes( f, i, heapPtr( o ) ); END
  EXT( "realloc" )
    if( a[ 1 ].isS() ) concretize( s, a[ 1 ] );
    Val old = a[ 0 ]; u32 oo = 0; u64 off; if( old.isS() ) concretize( s, old );
    if( old.c ) { resolve( s, old, 0, false, oo, off, true ); if( s.objs[ oo ].kind != OK_MALLOC || off ) { report( s, "memory", "realloc of a pointer that malloc did not return", nullptr ); endPath(); } }
    u32 o = allocHeap( s, a[ 1 ], OK_MALLOC );
    if( old.c ) { copyMem( s, oo, 0, o, 0, std::min( s.objs[ oo ].size, s.objs[ o ].size ) ); freeHeap( s, old, OK_MALLOC ); }
    setRes( f, i, heapPtr( o ) ); END
  for( const char * n : { "memcpy", "__memcpy_chk" } ) EXT( n ) memCopy( s, a[ 0 ], a[ 1 ], a[ 2 ], false ); setRes( f, i, a[ 0 ] ); END
  EXT( "memmove" ) memCopy( s, a[ 0 ], a[ 1 ], a[ 2 ], true ); setRes( f, i, a[ 0 ] ); END
  EXT( "memset" ) memSet( s, a[ 0 ], a[ 1 ], a[ 2 ] ); setRes( f, i, a[ 0 ] ); END
  EXT( "strlen" )
    u32 o; u64 off; u64 n = 0; Val p = a[ 0 ];
    for(;; ++n )
    {
      Val q = Val::conc( p.c + n, 64, p.prov ); if( p.isS() ) concretize( s, p ), q = Val::conc( p.c + n, 64, p.prov );
      resolve( s, q, 1, false, o, off ); Val b = readMem( s, o, off, 1, 8 );
      if( b.isU() ) observeUndef( s, "strlen" );
      if( b.isC() ? b.c == 0 : decide( s, eq( b.e, kc( 0, 8 ) ) ) ) break;
    }
    setRes( f, i, Val::conc( n, 64 ) ); END
  for( const char * nm : { "memcmp", "bcmp", "strncmp" } ) EXT( nm )
    Val n = a[ 2 ]; if( n.isS() ) concretize( s, n );
    for( int k = 0; k < 2; ++k ) if( a[ k ].isS() ) concretize( s, a[ k ] );
    int r = 0;
    for( u64 k = 0; k < n.c && !r; ++k )
    {
      u32 o; u64 off; Val p = Val::conc( a[ 0 ].c + k, 64, a[ 0 ].prov ), q = Val::conc( a[ 1 ].c + k, 64, a[ 1 ].prov );
      resolve( s, p, 1, false, o, off ); Val x = readMem( s, o, off, 1, 8 ); resolve( s, q, 1, false, o, off ); Val y = readMem( s, o, off, 1, 8 );
      if( x.isU() || y.isU() ) observeUndef( s, "memory comparison" );
      E ex = x.toE(), ey = y.toE();
      if( !decide( s, eq( ex, ey ) ) ) r = decide( s, cmp( O_ULT, ex, ey ) ) ? -1 : 1;
      else if( i.callee && i.callee->getName() == "strncmp" && decide( s, eq( ex, kc( 0, 8 ) ) ) ) break;
    }
    setRes( f, i, Val::conc( (u64)(i64)r, 32 ) ); END
  EXT( "memchr" )
    Val n = a[ 2 ]; if( n.isS() ) concretize( s, n ); if( a[ 0 ].isS() ) concretize( s, a[ 0 ] );
    Val res = Val::conc( 0, 64 );
    for( u64 k = 0; k < n.c; ++k )
    {
      u32 o; u64 off; Val p = Val::conc( a[ 0 ].c + k, 64, a[ 0 ].prov ); resolve( s, p, 1, false, o, off ); Val x = readMem( s, o, off, 1, 8 );
      if( x.isU() ) observeUndef( s, "memchr" );
      if( decide( s, eq( x.toE(), extract( a[ 1 ].toE(), 0, 8 ) ) ) ) { res = p; break; }
    }
    setRes( f, i, res ); END
  EXT( "lv_sym" )
    unsigned w = (unsigned)a[ 1 ].c; std::string n = cstr( s, a[ 0 ] ); E e = symFor( s, n, w );
    s.in.push_back( { n, e, 0, (u16)w, 0 } ); setRes( f, i, Val::of( zext( e, 64 ) ) ); END
  EXT( "lv_range" )
    for( int b = 1; b < 3; ++b ) if( a[ b ].isS() ) concretize( s, a[ b ] );
    i64 lo = (i64)a[ 1 ].c, hi = (i64)a[ 2 ].c; std::string n = cstr( s, a[ 0 ] );
    if( lo > hi ) { ++nKilledAssume; endPath(); }
    u64 R = (u64)hi - (u64)lo; unsigned k = 0; while( k < 64 && ( k == 64 ? 0 : R >> k ) ) ++k;
    E v; E sy = nullptr;
    if( k == 0 ) v = kc( (u64)lo, 64 );
    else
    {
      sy = symFor( s, n + "[" + std::to_string( lo ) + ".." + std::to_string( hi ) + "]", k ); v = bin( O_ADD, zext( sy, 64 ), kc( (u64)lo, 64 ) );
      if( R != maskw( k ) ) assume( s, cmp( O_ULE, sy, kc( R, k ) ) );
    }
    s.in.push_back( { n, v, 0, 64, 0 } ); setRes( f, i, Val::of( v ) ); END
  for( const char * nm : { "lv_symf64", "lv_symf32" } ) EXT( nm )
    unsigned w = i.w; std::string n = cstr( s, a[ 0 ] );
    E e = symFor( s, n, opt.real ? WREAL : w ); s.in.push_back( { n, e, 0, (u16)w, (u8)( opt.real ? 1 : 3 ) } );
    setRes( f, i, Val::of( e ) ); END
  EXT( "lv_assume" ) assume( s, boolE( s, a[ 0 ] ) ); END
  EXT( "lv_assert" )
    ++nAsserts; E c = boolE( s, a[ 0 ] ); if( !isC( c ) ) ++nSymAsserts;
    checkNot( s, bnot( c ), "assert", cstr( s, a[ 1 ] ) ); END
  EXT( "lv_near64" )     // real mode: exact equality; counterexamples with a visible difference are preferred
    ++nAsserts;
    if( !opt.real )
    {
      if( a[ 0 ].isU() || a[ 1 ].isU() ) observeUndef( s, "comparison" );
      E x = a[ 0 ].toE(), y = a[ 1 ].toE(); E c = bor( fcmpE( O_FEQ, x, y ), band( fcmpE( O_FUNO, x, x ), fcmpE( O_FUNO, y, y ) ) );
      if( !isC( c ) ) ++nSymAsserts;
      checkNot( s, bnot( c ), "assert", cstr( s, a[ 2 ] ) ); return true;
    }
    E x = toReal( s, a[ 0 ] ), y = toReal( s, a[ 1 ] ), c = rcmp( O_REQ, x, y );
    if( isC( c ) ) { if( !c->c ) { report( s, "assert", cstr( s, a[ 2 ] ), nullptr ); endPath(); } return true; }
    ++nSymAsserts;
    std::vector< u64 > m;
    SatRes r = S->check( s.pc, bnot( c ), &m );
    if( r == SR_UNSAT ) return true;
    if( r == SR_UNKNOWN ) { incomplete( "solver unknown on assertion: " + cstr( s, a[ 2 ] ) ); return true; }
    E far1 = rcmp( O_RLT, rbin( O_RADD, x, rconst( 1 ) ), y ), far2 = rcmp( O_RLT, rbin( O_RADD, y, rconst( 1 ) ), x );
    E ext = bnot( c );
    if( S->check( s.pc, far1, &m ) == SR_SAT ) ext = far1; else if( S->check( s.pc, far2, &m ) == SR_SAT ) ext = far2;
    report( s, "assert", cstr( s, a[ 2 ] ), ext ); endPath(); END
  EXT( "lv_isreal" ) setRes( f, i, Val::conc( opt.real, 32 ) ); END
  EXT( "lv_symbolic" ) setRes( f, i, Val::conc( 1, 32 ) ); END
  EXT( "lv_abort" ) onAbort( s, "error: " + cstr( s, a[ 0 ] ) ); END
  EXT( "abort" ) onAbort( s, "abort() called" ); END
  EXT( "__assert_fail" ) onAbort( s, "assert() failed: " + cstr( s, a[ 0 ] ) ); END
  EXT( "_ZSt9terminatev" ) onAbort( s, "std::terminate called" ); END
  EXT( "__cxa_pure_virtual" ) onAbort( s, "pure virtual call" ); END
  EXT( "lv_expect_begin" ) s.expect = 1; s.expectCond = boolE( s, a[ 0 ] ); END
  EXT( "lv_expect_end" )
    E c = s.expectCond; checkNot( s, c, "noabort", "the operation completed although it had to be rejected" ); s.expect = 0; s.expectCond = nullptr; END
  EXT( "lv_observe" ) if( a[ 0 ].isU() ) observeUndef( s, "observed value" ); s.obs.push_back( a[ 0 ] ); END
  EXT( "lv_defined" ) for( Val & v : a ) if( v.isU() ) observeUndef( s, "result" ); END
  EXT( "lv_reach" ) ++labels[ cstr( s, a[ 0 ] ) ]; END
  EXT( "lv_heap_live" ) setRes( f, i, Val::conc( (u64)( (i64)s.liveHeap - s.heapBase ), 64 ) ); END
  EXT( "lv_no_leak_check" ) s.noLeak = true; END
  EXT( "lv_end_path" ) pathSample( s, false ); endPath(); END
  EXT( "lv_concrete" ) concretize( s, a[ 0 ] ); setRes( f, i, a[ 0 ] ); END
  EXT( "lv_choose" )     // a fresh symbol the path uses concretely: it occurs in no constraint, so every value in range is feasible without asking the solver
    for( int b = 1; b < 3; ++b ) if( a[ b ].isS() ) concretize( s, a[ b ] );
    i64 lo = (i64)a[ 1 ].c, hi = (i64)a[ 2 ].c; std::string n = cstr( s, a[ 0 ] );
    if( lo > hi ) { ++nKilledAssume; endPath(); }
    if( hi - lo > 4096 ) unsupported( s, "choice over too many values" );
    for( i64 v = hi; v > lo; --v )
    {
      State * o = fork( s ); o->forced.clear(); o->in.push_back( { n, nullptr, (u64)v, 64, 2 } );
      Frame & of = o->th[ o->cur ].fr.back(); setRes( of, i, Val::conc( (u64)v, 64 ) ); ++of.ip; work.push_back( o );
    }
    s.in.push_back( { n, nullptr, (u64)lo, 64, 2 } ); setRes( s.th[ s.cur ].fr.back(), i, Val::conc( (u64)lo, 64 ) ); END
  EXT( "lv_spawn" )
    u32 o = (u32)( ( a[ 0 ].c >> 32 ) - 1 ); const Function * F = o < fnOfObj.size() ? fnOfObj[ o ] : nullptr;
    if( !F ) unsupported( s, "spawn of an unknown function" );
    Thread t; Frame nf; nf.fn = getFn( F ); nf.bb = nf.ip = nf.prev = 0; nf.retSlot = -1; nf.retN = 0; nf.call = nullptr; nf.r.assign( nf.fn->nslots, Val::undef( 64 ) ); nf.r[ 0 ] = a[ 1 ];
    t.fr.push_back( nf ); s.inConc = true; ++f.ip; s.th.push_back( t ); return false; };
  EXT( "lv_join" )
    std::vector< u32 > r = runnable( s );
    if( r.empty() ) { s.inConc = false; s.acc.clear(); s.th.resize( 1 ); s.th[ 0 ].joining = false; return true; }
    s.th[ 0 ].joining = true; switchTo( s, r, false ); return false; };
  EXT( "lv_sched" )
    if( s.cur == 0 ) return true;
    ++f.ip; std::vector< u32 > r = runnable( s );
    for( size_t k = 0; k < r.size(); ++k ) if( r[ k ] == s.cur ) std::swap( r[ 0 ], r[ k ] );
    switchTo( s, r, true ); return false; };
  EXT( "lv_atomic_begin" ) ++s.atomicDepth; END
  EXT( "lv_atomic_end" ) --s.atomicDepth; END
  EXT( "__cxa_guard_acquire" )
    u32 o; u64 off; Val p = a[ 0 ]; resolve( s, p, 1, false, o, off ); Val b = readMem( s, o, off, 1, 8 ); setRes( f, i, Val::conc( b.isC() && b.c ? 0 : 1, 32 ) ); END
  EXT( "__cxa_guard_release" ) u32 o; u64 off; Val p = a[ 0 ]; resolve( s, p, 1, true, o, off ); writeMem( s, o, off, Val::conc( 1, 8 ), 1 ); END
  for( const char * n : { "__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fwrite", "fputc" } ) EXT( n ) setRes( f, i, Val::conc( 0, i.w ) ); END
  EXT( "__cxa_allocate_exception" ) u32 o = newObj( s, a[ 0 ].c, OK_STACK, curI( s ) ); setRes( f, i, heapPtr( o ) ); END
  EXT( "__cxa_throw" ) onAbort( s, "exception thrown" ); END
#undef END
#undef EXT
}

static std::string mathBase( StringRef n, unsigned & w, int & ar )
{
  static const std::set< std::string > one = { "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "fabs", "floor", "ceil", "round", "trunc", "cbrt", "log10", "exp2", "log2" }, two = { "atan2", "pow", "fmod", "hypot" };
  std::string s = n.str(); w = 64; ar = 1;
  if( one.count( s ) ) return s;
  ar = 2; if( two.count( s ) ) return s;
  if( s.size() > 1 && s.back() == 'f' ) { s.pop_back(); w = 32; if( two.count( s ) ) return s; ar = 1; if( one.count( s ) ) return s; }
  return "";
}

// ---------------------------------------------------------------------------------------------------------------- intrinsics
static bool intrinsic( State & s, Frame & f, const Ins & i, Args & a, Intrinsic::ID id )
{
  auto u = [&]( size_t k ) { if( a[ k ].isU() ) observeUndef( s, "operation" ); return a[ k ].toE(); };
  auto anyU = [&]() { for( Val & v : a ) if( v.isU() ) return true; return false; };
  switch( id )
  {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: memCopy( s, a[ 0 ], a[ 1 ], a[ 2 ], false ); return true;
    case Intrinsic::memmove: memCopy( s, a[ 0 ], a[ 1 ], a[ 2 ], true ); return true;
    case Intrinsic::memset: memSet( s, a[ 0 ], a[ 1 ], a[ 2 ] ); return true;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: setRes( f, i, Val::conc( 0, 64 ) ); return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: setRes( f, i, a[ 0 ] ); return true;
    case Intrinsic::is_constant: setRes( f, i, Val::conc( 0, 1 ) ); return true;
    case Intrinsic::objectsize: setRes( f, i, Val::conc( a[ 1 ].c ? 0 : ~0ull, i.w ) ); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: onAbort( s, "trap" ); return true;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
    {
      if( anyU() ) { setRes( f, i, Val::undef( i.w ) ); return true; }
      E x = u( 0 ), y = u( 1 ); bool sg = id == Intrinsic::smax || id == Intrinsic::smin, mx = id == Intrinsic::umax || id == Intrinsic::smax;
      E lt = cmp( sg ? O_SLT : O_ULT, x, y ); setRes( f, i, Val::of( mx ? ite( lt, y, x ) : ite( lt, x, y ) ) ); return true;
    }
    case Intrinsic::abs:
    {
      if( anyU() ) { setRes( f, i, Val::undef( i.w ) ); return true; }
      E x = u( 0 ); setRes( f, i, Val::of( ite( cmp( O_SLT, x, kc( 0, i.w ) ), bin( O_SUB, kc( 0, i.w ), x ), x ) ) );
      if( opt.checkOvf && a[ 1 ].c ) checkNot( s, eq( x, kc( 1ull << ( i.w - 1 ), i.w ) ), "overflow", "signed overflow" );
      return true;
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow:
    {
      E x = u( 0 ), y = u( 1 ); Op o, b;
      switch( id )
      {
        case Intrinsic::sadd_with_overflow: o = O_SADDO; b = O_ADD; break; case Intrinsic::uadd_with_overflow: o = O_UADDO; b = O_ADD; break;
        case Intrinsic::ssub_with_overflow: o = O_SSUBO; b = O_SUB; break; case Intrinsic::usub_with_overflow: o = O_USUBO; b = O_SUB; break;
        case Intrinsic::smul_with_overflow: o = O_SMULO; b = O_MUL; break; default: o = O_UMULO; b = O_MUL; break;
      }
      f.r[ i.dst ] = Val::of( bin( b, x, y ) ); f.r[ i.dst + 1 ] = Val::of( ovf( o, x, y ) ); return true;
    }
    case Intrinsic::usub_sat: { E x = u( 0 ), y = u( 1 ); setRes( f, i, Val::of( ite( cmp( O_ULT, x, y ), kc( 0, i.w ), bin( O_SUB, x, y ) ) ) ); return true; }
    case Intrinsic::uadd_sat: { E x = u( 0 ), y = u( 1 ); setRes( f, i, Val::of( ite( ovf( O_UADDO, x, y ), kc( ~0ull, i.w ), bin( O_ADD, x, y ) ) ) ); return true; }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop:
    {
      Val v = a[ 0 ]; if( v.isU() ) observeUndef( s, "operation" );
      E x = v.toE(), r; unsigned w = i.w;
      if( id == Intrinsic::ctpop ) { r = kc( 0, w ); for( unsigned k = 0; k < w; ++k ) r = bin( O_ADD, r, zext( extract( x, k, 1 ), w ) ); }
      else
      {
        r = kc( w, w );
        if( id == Intrinsic::ctlz ) for( unsigned k = 0; k < w; ++k ) r = ite( eq( extract( x, k, 1 ), kc( 1, 1 ) ), kc( w - 1 - k, w ), r );
        else for( unsigned k = w; k-- > 0; ) r = ite( eq( extract( x, k, 1 ), kc( 1, 1 ) ), kc( k, w ), r );
      }
      setRes( f, i, Val::of( r ) ); return true;
    }
    case Intrinsic::bswap: { E x = u( 0 ), r = nullptr; for( unsigned k = 0; k < i.w; k += 8 ) { E b = extract( x, k, 8 ); r = r ? concat( r, b ) : b; } setRes( f, i, Val::of( r ) ); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr:
    {
      if( !a[ 2 ].isC() ) unsupported( s, "funnel shift" );
      unsigned w = i.w, k = (unsigned)( a[ 2 ].c % w ); E x = u( 0 ), y = u( 1 );
      if( id == Intrinsic::fshr ) k = k ? w - k : 0; else if( !k ) { setRes( f, i, a[ 0 ] ); return true; }
      if( id == Intrinsic::fshr && !k ) { setRes( f, i, a[ 1 ] ); return true; }
      setRes( f, i, Val::of( bin( O_OR, bin( O_SHL, x, kc( k, w ) ), bin( O_LSHR, y, kc( w - k, w ) ) ) ) ); return true;
    }
    case Intrinsic::sqrt: setRes( f, i, fmath( s, "sqrt", a[ 0 ], nullptr, i.w ) ); return true;
    case Intrinsic::fabs: setRes( f, i, fmath( s, "fabs", a[ 0 ], nullptr, i.w ) ); return true;
    case Intrinsic::sin: setRes( f, i, fmath( s, "sin", a[ 0 ], nullptr, i.w ) ); return true;
    case Intrinsic::cos: setRes( f, i, fmath( s, "cos", a[ 0 ], nullptr, i.w ) ); return true;
    case Intrinsic::exp: setRes( f, i, fmath( s, "exp", a[ 0 ], nullptr, i.w ) ); return true;
    case Intrinsic::log: setRes( f, i, fmath( s, "log", a[ 0 ], nullptr, i.w ) ); return true;
    case Intrinsic::pow: setRes( f, i, fmath( s, "pow", a[ 0 ], &a[ 1 ], i.w ) ); return true;
    case Intrinsic::floor: setRes( f, i, fmath( s, "floor", a[ 0 ], nullptr, i.w ) ); return true;
    case Intrinsic::ceil: setRes( f, i, fmath( s, "ceil", a[ 0 ], nullptr, i.w ) ); return true;
    case Intrinsic::copysign:
    {
      if( opt.real ) unsupported( s, "copysign in real mode" );
      E x = u( 0 ), y = u( 1 ); unsigned w = i.w; E m = kc( 1ull << ( w - 1 ), w ), nm = kc( maskw( w ) >> 1, w );
      setRes( f, i, Val::of( bin( O_OR, bin( O_AND, x, nm ), bin( O_AND, y, m ) ) ) ); return true;
    }
    case Intrinsic::maxnum: case Intrinsic::minnum:
    {
      if( opt.real ) { E x = toReal( s, a[ 0 ] ), y = toReal( s, a[ 1 ] ); E lt = rcmp( O_RLT, x, y ); setRes( f, i, Val::of( id == Intrinsic::maxnum ? ite( lt, y, x ) : ite( lt, x, y ) ) ); return true; }
      E x = u( 0 ), y = u( 1 ), nx = fcmpE( O_FUNO, x, x ), ny = fcmpE( O_FUNO, y, y ), lt = fcmpE( O_FLT, x, y );
      E r = id == Intrinsic::maxnum ? ite( lt, y, x ) : ite( lt, x, y ); setRes( f, i, Val::of( ite( nx, y, ite( ny, x, r ) ) ) ); return true;
    }
    case Intrinsic::fmuladd: case Intrinsic::fma:
      if( opt.real ) { setRes( f, i, Val::of( rbin( O_RADD, rbin( O_RMUL, toReal( s, a[ 0 ] ), toReal( s, a[ 1 ] ) ), toReal( s, a[ 2 ] ) ) ) ); return true; }
      unsupported( s, "fma" );
    case Intrinsic::ptrmask: { Val p = a[ 0 ]; setRes( f, i, Val::of( bin( O_AND, p.toE(), u( 1 ) ), p.prov ) ); return true; }
    case Intrinsic::eh_typeid_for: setRes( f, i, Val::conc( 1, i.w ) ); return true;
    default: unsupported( s, "intrinsic " + i.callee->getName().str() );
  }
}

// ---------------------------------------------------------------------------------------------------------------- step
static void gotoBlock( State & s, Frame & f, u32 to )
{
  (void)s;
  f.prev = f.bb; f.bb = to; f.ip = 0;
  Block & b = f.fn->blocks[ to ];
  if( b.phis.empty() ) return;
  static std::vector< std::pair< int, Val > > tmp; tmp.clear();
  for( Phi & p : b.phis )
  {
    std::vector< Opd > const * src = nullptr;
    for( auto & in : p.in ) if( in.first == f.prev ) { src = &in.second; break; }
    if( !src ) { fprintf( stderr, "phi without source\n" ); abort(); }
    for( u32 k = 0; k < p.n; ++k ) tmp.push_back( { p.dst + (int)k, get( f, ( *src )[ k ] ) } );
  }
  for( auto & t : tmp ) f.r[ t.first ] = t.second;
}

static Val binop( State & s, const Ins & i, Val x, Val y )
{
  Op o = (Op)i.sub; unsigned w = i.w;
  if( x.isU() || y.isU() )
  {
    if( ( o == O_UDIV || o == O_SDIV || o == O_UREM || o == O_SREM ) && y.isU() ) observeUndef( s, "divisor" );
    return Val::undef( w );
  }
  bool divs = o == O_UDIV || o == O_SDIV || o == O_UREM || o == O_SREM;
  if( divs )
  {
    checkNot( s, eq( y.toE(), kc( 0, w ) ), "arith", "division by zero" );
    if( ( o == O_SDIV || o == O_SREM ) && opt.checkOvf && w <= 64 ) checkNot( s, band( eq( x.toE(), kc( 1ull << ( w - 1 ), w ) ), eq( y.toE(), kc( ~0ull, w ) ) ), "overflow", "signed overflow in a division" );
  }
  bool shift = o == O_SHL || o == O_LSHR || o == O_ASHR;
  if( shift && w <= 64 ) checkNot( s, cmp( O_ULE, kc( w, w ), y.toE() ), "arith", "shift amount out of range" );
  u32 prov = 0;
  if( o == O_ADD || o == O_SUB ) { if( x.prov && !y.prov ) prov = x.prov; else if( y.prov && !x.prov && o == O_ADD ) prov = y.prov; }
  else if( o == O_AND && x.prov ) prov = x.prov;
  if( ( i.nsw || i.nuw ) && opt.checkOvf && w <= 64 && ( o == O_ADD || o == O_SUB || o == O_MUL ) )
  {
    if( i.nsw )
    {
      E ov = ovf( o == O_ADD ? O_SADDO : o == O_SUB ? O_SSUBO : O_SMULO, x.toE(), y.toE() );
      if( !isC( ov ) ) ++nOvfQ;
      checkNot( s, ov, "overflow", "signed overflow" );
    }
  }
  if( x.isC() && y.isC() && w <= 64 ) { bool ok; u64 r = foldBin( o, x.c, y.c, w, ok ); if( ok ) return Val::conc( r, w, prov ); }
  return Val::of( bin( o, x.toE(), y.toE() ), prov );
}

static Val icmp( const Ins & i, Val x, Val y )
{
  if( x.isU() || y.isU() ) return Val::undef( 1 );
  E a = x.toE(), b = y.toE(), r;
  switch( (CmpInst::Predicate)i.sub )
  {
    case CmpInst::ICMP_EQ: r = eq( a, b ); break; case CmpInst::ICMP_NE: r = bnot( eq( a, b ) ); break;
    case CmpInst::ICMP_ULT: r = cmp( O_ULT, a, b ); break; case CmpInst::ICMP_ULE: r = cmp( O_ULE, a, b ); break;
    case CmpInst::ICMP_UGT: r = cmp( O_ULT, b, a ); break; case CmpInst::ICMP_UGE: r = cmp( O_ULE, b, a ); break;
    case CmpInst::ICMP_SLT: r = cmp( O_SLT, a, b ); break; case CmpInst::ICMP_SLE: r = cmp( O_SLE, a, b ); break;
    case CmpInst::ICMP_SGT: r = cmp( O_SLT, b, a ); break; default: r = cmp( O_SLE, b, a ); break;
  }
  return Val::of( r );
}

static Val fcmp( State & s, const Ins & i, Val x, Val y )
{
  if( x.isU() || y.isU() ) return Val::undef( 1 );
  auto pr = (CmpInst::Predicate)i.sub;
  if( pr == CmpInst::FCMP_FALSE ) return Val::conc( 0, 1 );
  if( pr == CmpInst::FCMP_TRUE ) return Val::conc( 1, 1 );
  E lt, gt, e, un;
  if( opt.real )
  {
    E a = toReal( s, x ), b = toReal( s, y );
    lt = rcmp( O_RLT, a, b ); gt = rcmp( O_RLT, b, a ); e = rcmp( O_REQ, a, b ); un = kc( 0, 1 );
    if( pr == CmpInst::FCMP_OLE || pr == CmpInst::FCMP_ULE ) return Val::of( rcmp( O_RLE, a, b ) );
    if( pr == CmpInst::FCMP_OGE || pr == CmpInst::FCMP_UGE ) return Val::of( rcmp( O_RLE, b, a ) );
  }
  else { E a = x.toE(), b = y.toE(); lt = fcmpE( O_FLT, a, b ); gt = fcmpE( O_FLT, b, a ); e = fcmpE( O_FEQ, a, b ); un = fcmpE( O_FUNO, a, b ); }
  E r;
  switch( pr )
  {
    case CmpInst::FCMP_OEQ: r = e; break; case CmpInst::FCMP_UEQ: r = bor( e, un ); break;
    case CmpInst::FCMP_OGT: r = gt; break; case CmpInst::FCMP_UGT: r = bor( gt, un ); break;
    case CmpInst::FCMP_OGE: r = bor( gt, e ); break; case CmpInst::FCMP_UGE: r = bnot( lt ); break;
    case CmpInst::FCMP_OLT: r = lt; break; case CmpInst::FCMP_ULT: r = bor( lt, un ); break;
    case CmpInst::FCMP_OLE: r = bor( lt, e ); break; case CmpInst::FCMP_ULE: r = bnot( gt ); break;
    case CmpInst::FCMP_ONE: r = bor( lt, gt ); break; case CmpInst::FCMP_UNE: r = bnot( e ); break;
    case CmpInst::FCMP_ORD: r = bnot( un ); break; default: r = un; break;
  }
  return Val::of( r );
}

static void popFrame( State & s )
{
  Frame & f = s.th[ s.cur ].fr.back();
  for( u32 o : f.allocas ) { Obj & ob = s.objs[ o ]; ob.alive = false; releaseObj( ob ); }
  s.th[ s.cur ].fr.pop_back();
}

static bool checkPtrRange( State &, Val const & ) { return true; }

static void advanceCall( Frame & f, const Ins & i, State & s )
{
  if( !i.succ.empty() ) gotoBlock( s, f, i.succ[ 0 ] ); else ++f.ip;
}

static void callFn( State & s, Frame & f, const Ins & i, const Function * F, Args & args )
{
  if( s.th[ s.cur ].fr.size() > 400 ) { report( s, "nonterm", "call depth limit exceeded", nullptr ); endPath(); }
  Fn * fn = getFn( F );
  Frame nf; nf.fn = fn; nf.bb = nf.ip = nf.prev = 0; nf.call = &i; nf.retSlot = i.dst; nf.retN = i.n;
  nf.r.assign( fn->nslots, Val::undef( 64 ) );
  size_t k = 0, ai = 0;
  for( size_t p = 0; p < fn->argSlot.size(); ++p )
  {
    bool bv = p < i.byval.size() && i.byval[ p ];
    if( bv )
    {
      u64 sz = i.byval[ p ]; u32 o = newObj( s, sz, OK_STACK, i.I ); nf.allocas.push_back( o );
      u32 so; u64 soff; Val src = args[ ai ]; resolve( s, src, sz, false, so, soff ); copyMem( s, so, soff, o, 0, sz );
      nf.r[ fn->argSlot[ p ] ] = heapPtr( o ); ai += 1; continue;
    }
    for( u32 l = 0; l < fn->argN[ p ] && ai < args.size(); ++l, ++ai ) nf.r[ fn->argSlot[ p ] + l ] = args[ ai ];
  }
  (void)k; (void)f;
  s.th[ s.cur ].fr.push_back( std::move( nf ) );
}

static void step( State & s )
{
  Frame & f = s.th[ s.cur ].fr.back();
  const Ins & i = f.fn->blocks[ f.bb ].ins[ f.ip ];
  ++nSteps;
  if( ++s.steps > opt.maxSteps ) { report( s, "nonterm", "no termination within the step limit", nullptr ); incomplete( "step limit" ); endPath(); }
  cover( i.I );
  switch( i.op )
  {
    case I_BIN:
    {
      if( i.n == 1 ) f.r[ i.dst ] = binop( s, i, get( f, i.a[ 0 ] ), get( f, i.a[ 1 ] ) );
      else { Ins t = i; t.w = (u16)DL->getTypeSizeInBits( cast< FixedVectorType >( i.I->getType() )->getElementType() ); for( u32 k = 0; k < i.n; ++k ) f.r[ i.dst + k ] = binop( s, t, get( f, i.a[ k ] ), get( f, i.a[ i.n + k ] ) ); }
      ++f.ip; break;
    }
    case I_ICMP:
      for( u32 k = 0; k < i.n; ++k ) f.r[ i.dst + k ] = icmp( i, get( f, i.a[ k ] ), get( f, i.a[ i.n + k ] ) );
      ++f.ip; break;
    case I_FCMP:
      for( u32 k = 0; k < i.n; ++k ) f.r[ i.dst + k ] = fcmp( s, i, get( f, i.a[ k ] ), get( f, i.a[ i.n + k ] ) );
      ++f.ip; break;
    case I_FBIN:
      for( u32 k = 0; k < i.n; ++k )
      {
        Val x = get( f, i.a[ k ] ), y = get( f, i.a[ i.n + k ] );
        if( x.isU() || y.isU() ) { f.r[ i.dst + k ] = Val::undef( x.w ); continue; }
        if( opt.real )
        {
          E a = toReal( s, x ), b = toReal( s, y ); Op o = i.sub == O_FADD ? O_RADD : i.sub == O_FSUB ? O_RSUB : i.sub == O_FMUL ? O_RMUL : O_RDIV;
          if( i.sub == O_FREM ) unsupported( s, "frem in real mode" );
          if( o == O_RDIV )
          {
            E z = rcmp( O_REQ, b, rconst( 0 ) );
            // a quotient by zero is any value at all: what depends on it is refuted by some value (and confirmed or not by the native replay)
            if( isC( z ) ? isC( z, 1 ) : !inPc( s, bnot( z ) ) && ( opt.div0 ? decide( s, z ) : ( s.pc.push_back( bnot( z ) ), s.modelOk = false, ++labels[ "assumed: nonzero divisor" ], false ) ) )
            { ++labels[ "division by zero" ]; f.r[ i.dst + k ] = Val::of( symFor( s, "quotient0#" + std::to_string( a->id ), WREAL ) ); continue; }
          }
          f.r[ i.dst + k ] = Val::of( rbin( o, a, b ) );
        }
        else f.r[ i.dst + k ] = Val::of( fbin( (Op)i.sub, x.toE(), y.toE() ) );
      }
      ++f.ip; break;
    case I_FNEG:
      for( u32 k = 0; k < i.n; ++k )
      {
        Val x = get( f, i.a[ k ] ); if( x.isU() ) { f.r[ i.dst + k ] = x; continue; }
        if( opt.real ) f.r[ i.dst + k ] = Val::of( rbin( O_RSUB, rconst( 0 ), toReal( s, x ) ) );
        else { unsigned w = x.w; f.r[ i.dst + k ] = Val::of( bin( O_XOR, x.toE(), kc( 1ull << ( w - 1 ), w ) ) ); }
      }
      ++f.ip; break;
    case I_TRUNC: case I_ZEXT: case I_SEXT:
    {
      Val x = get( f, i.a[ 0 ] );
      if( x.isU() ) f.r[ i.dst ] = Val::undef( i.w );
      else if( x.w == WREAL ) unsupported( s, "integer cast of a real" );
      else if( x.isC() && i.w <= 64 && x.w <= 64 ) f.r[ i.dst ] = Val::conc( i.op == I_SEXT ? (u64)sx( x.c, x.w ) : x.c, i.w, i.w == 64 ? x.prov : 0 );
      else f.r[ i.dst ] = Val::of( i.op == I_TRUNC ? extract( x.toE(), 0, i.w ) : i.op == I_ZEXT ? zext( x.toE(), i.w ) : sext( x.toE(), i.w ), i.w == 64 ? x.prov : 0 );
      ++f.ip; break;
    }
    case I_COPY:
    {
      if( i.n == 1 ) f.r[ i.dst ] = get( f, i.a[ 0 ] );
      else
      {
        if( i.a.size() != i.n ) unsupported( s, "bitcast of a vector" );
        std::vector< Val > t; for( u32 k = 0; k < i.n; ++k ) t.push_back( get( f, i.a[ k ] ) ); for( u32 k = 0; k < i.n; ++k ) f.r[ i.dst + k ] = t[ k ];
      }
      ++f.ip; break;
    }
    case I_FPTOSI: case I_FPTOUI:
    {
      Val x = get( f, i.a[ 0 ] ); if( x.isU() ) { f.r[ i.dst ] = Val::undef( i.w ); ++f.ip; break; }
      if( opt.real )
      {
        if( x.isC() || x.e->op == O_RCONST ) { double d = asD( toReal( s, x )->c ); f.r[ i.dst ] = Val::conc( (u64)(i64)d, i.w ); ++f.ip; break; }
        unsupported( s, "real to integer" );
      }
      if( x.isC() )
      {
        double d = x.w == 64 ? asD( x.c ) : asF( x.c );
        double hi = i.op == I_FPTOSI ? std::ldexp( 1.0, i.w - 1 ) : std::ldexp( 1.0, i.w ), lo = i.op == I_FPTOSI ? -hi - 1 : -1;
        if( !( d < hi && d > lo ) && !( i.op == I_FPTOSI && d == -hi ) ) { report( s, "arith", "floating point to integer conversion out of range", nullptr ); endPath(); }
        f.r[ i.dst ] = Val::conc( i.op == I_FPTOSI ? (u64)(i64)d : (u64)d, i.w );
      }
      else
      {
        unsigned fw = x.w; double hi = i.op == I_FPTOSI ? std::ldexp( 1.0, i.w - 1 ) : std::ldexp( 1.0, i.w ), lo = i.op == I_FPTOSI ? -hi : -1;
        auto k = [&]( double d ) { return kc( fw == 64 ? dBits( d ) : fBits( (float)d ), fw ); };
        E okc = band( fcmpE( O_FLT, x.e, k( hi ) ), i.op == I_FPTOSI ? ( fw == 64 && i.w < 53 ? fcmpE( O_FLT, k( lo - 1 ), x.e ) : fcmpE( O_FLE, k( lo ), x.e ) ) : fcmpE( O_FLT, k( lo ), x.e ) );
        checkNot( s, bnot( okc ), "arith", "floating point to integer conversion out of range" );
        f.r[ i.dst ] = Val::of( P.mk( i.op == I_FPTOSI ? O_F2S : O_F2U, i.w, x.e, 0, 0, 0 ) );
      }
      ++f.ip; break;
    }
    case I_SITOFP: case I_UITOFP:
    {
      Val x = get( f, i.a[ 0 ] ); if( x.isU() ) { f.r[ i.dst ] = Val::undef( i.w ); ++f.ip; break; }
      bool sg = i.op == I_SITOFP;
      if( opt.real )
      {
        if( x.isC() ) f.r[ i.dst ] = Val::of( rconst( sg ? (double)sx( x.c, x.w ) : (double)x.c ) );
        else f.r[ i.dst ] = Val::of( P.mk( sg ? O_RFROMS : O_RFROMU, WREAL, x.e, 0, 0, 0 ) );
      }
      else if( x.isC() )
      {
        if( i.w == 64 ) f.r[ i.dst ] = Val::conc( dBits( sg ? (double)sx( x.c, x.w ) : (double)x.c ), 64 );
        else f.r[ i.dst ] = Val::conc( fBits( sg ? (float)sx( x.c, x.w ) : (float)x.c ), 32 );
      }
      else f.r[ i.dst ] = Val::of( P.mk( sg ? O_S2F : O_U2F, i.w, x.e, 0, 0, 0 ) );
      ++f.ip; break;
    }
    case I_FPCVT:
    {
      Val x = get( f, i.a[ 0 ] ); if( x.isU() ) { f.r[ i.dst ] = Val::undef( i.w ); ++f.ip; break; }
      if( opt.real ) f.r[ i.dst ] = Val::of( toReal( s, x ) );
      else if( i.w > 64 || x.w > 64 ) unsupported( s, "long double" );
      else if( x.isC() ) f.r[ i.dst ] = i.w == 64 ? Val::conc( dBits( (double)asF( x.c ) ), 64 ) : Val::conc( fBits( (float)asD( x.c ) ), 32 );
      else f.r[ i.dst ] = Val::of( P.mk( O_F2F, i.w, x.e, 0, 0, 0 ) );
      ++f.ip; break;
    }
    case I_GEP:
    {
      Val p = get( f, i.a[ 0 ] ); if( p.isU() ) { f.r[ i.dst ] = Val::undef( 64 ); ++f.ip; break; }
      bool sym = p.isS(); bool und = false;
      for( size_t k = 0; k < i.scales.size(); ++k ) { Val x = get( f, i.a[ k + 1 ] ); if( x.isS() ) sym = true; if( x.isU() ) und = true; }
      if( und ) { f.r[ i.dst ] = Val::undef( 64 ); ++f.ip; break; }
      if( !sym )
      {
        u64 c = p.c + (u64)i.imm;
        for( size_t k = 0; k < i.scales.size(); ++k ) { Val x = get( f, i.a[ k + 1 ] ); c += (u64)( sx( x.c, x.w ) * i.scales[ k ] ); }
        f.r[ i.dst ] = Val::conc( c, 64, p.prov );
      }
      else
      {
        E e = p.toE();
        for( size_t k = 0; k < i.scales.size(); ++k ) { Val x = get( f, i.a[ k + 1 ] ); e = bin( O_ADD, e, bin( O_MUL, sext( x.toE(), 64 ), kc( (u64)i.scales[ k ], 64 ) ) ); }
        e = bin( O_ADD, e, kc( (u64)i.imm, 64 ) );
        f.r[ i.dst ] = Val::of( e, p.prov );
      }
      ++f.ip; break;
    }
    case I_LOAD:
    {
      Val p = get( f, i.a[ 0 ] ); u64 total = 0; for( auto & l : i.leaves ) total = std::max< u64 >( total, l.off + l.bytes );
      u32 o; u64 off; if( i.leaves.empty() ) { ++f.ip; break; }
      resolve( s, p, total, false, o, off ); raceCheck( s, o, off, total, false );
      for( u32 k = 0; k < i.leaves.size(); ++k )
      {
        if( i.leaves[ k ].w > 64 && i.leaves[ k ].fp ) { f.r[ i.dst + k ] = Val::undef( 80 ); continue; }
        f.r[ i.dst + k ] = readMem( s, o, off + i.leaves[ k ].off, i.leaves[ k ].bytes, i.leaves[ k ].w );
      }
      ++f.ip; break;
    }
    case I_STORE:
    {
      Val p = get( f, i.a[ 0 ] ); u64 total = 0; for( auto & l : i.leaves ) total = std::max< u64 >( total, l.off + l.bytes );
      u32 o; u64 off; if( i.leaves.empty() ) { ++f.ip; break; }
      resolve( s, p, total, true, o, off ); raceCheck( s, o, off, total, true );
      for( u32 k = 0; k < i.leaves.size(); ++k ) writeMem( s, o, off + i.leaves[ k ].off, get( f, i.a[ 1 + k ] ), i.leaves[ k ].bytes );
      ++f.ip; break;
    }
    case I_ALLOCA:
    {
      Val n = get( f, i.a[ 0 ] ); if( n.isS() ) concretize( s, n );
      u32 o = newObj( s, (u64)i.imm * n.c, OK_STACK, i.I ); f.allocas.push_back( o );
      f.r[ i.dst ] = heapPtr( o ); ++f.ip; break;
    }
    case I_BR: gotoBlock( s, f, i.succ[ 0 ] ); break;
    case I_CONDBR: { bool c = condOf( s, get( f, i.a[ 0 ] ) ); gotoBlock( s, f, i.succ[ c ? 0 : 1 ] ); break; }
    case I_SWITCH:
    {
      Val v = get( f, i.a[ 0 ] ); if( v.isU() ) observeUndef( s, "switch" );
      u32 t = i.succ[ 0 ];
      if( v.isC() ) { for( size_t k = 0; k < i.cases.size(); ++k ) if( i.cases[ k ] == v.c ) { t = i.succ[ k + 1 ]; break; } }
      else for( size_t k = 0; k < i.cases.size(); ++k ) if( decide( s, eq( v.e, kc( i.cases[ k ], v.w ) ) ) ) { t = i.succ[ k + 1 ]; break; }
      gotoBlock( s, f, t ); break;
    }
    case I_SELECT:
    {
      Val c = get( f, i.a[ 0 ] ); u32 n = (u32)i.leaves.size();
      if( c.isU() ) { for( u32 k = 0; k < n; ++k ) f.r[ i.dst + k ] = Val::undef( i.leaves[ k ].w ); ++f.ip; break; }
      if( c.isS() )
      {
        bool mustFork = n != 1 || i.leaves[ 0 ].ptr || ( opt.real && !i.leaves[ 0 ].fp && i.leaves[ 0 ].w > 1 );
        Val x = get( f, i.a[ 1 ] ), y = get( f, i.a[ 1 + n ] );
        if( !mustFork && ( x.isU() || y.isU() || x.prov || y.prov ) ) mustFork = true;
        if( !mustFork )
        {
          E a = x.isC() && opt.real && i.leaves[ 0 ].fp ? toReal( s, x ) : x.toE(), b = y.isC() && opt.real && i.leaves[ 0 ].fp ? toReal( s, y ) : y.toE();
          f.r[ i.dst ] = Val::of( ite( c.e, a, b ) ); ++f.ip; break;
        }
      }
      bool cv = condOf( s, c );
      std::vector< Val > t; for( u32 k = 0; k < n; ++k ) t.push_back( get( f, i.a[ 1 + ( cv ? 0 : n ) + k ] ) );
      for( u32 k = 0; k < n; ++k ) f.r[ i.dst + k ] = t[ k ];
      ++f.ip; break;
    }
    case I_FREEZE:
    {
      Val x = get( f, i.a[ 0 ] ); f.r[ i.dst ] = x.isU() ? Val::of( newSym( "garbage", i.w, true ) ) : x; ++f.ip; break;
    }
    case I_FENCE: ++f.ip; break;
    case I_ATOMICRMW: case I_CMPXCHG:
    {
      Val p = get( f, i.a[ 0 ] ); u32 o; u64 off; u32 n; unsigned w;
      if( i.op == I_CMPXCHG ) { n = i.leaves[ 0 ].bytes; w = i.leaves[ 0 ].w; } else { w = i.w; n = ( w + 7 ) / 8; }
      resolve( s, p, n, true, o, off ); ++s.atomicDepth; raceCheck( s, o, off, n, true ); --s.atomicDepth;
      Val old = readMem( s, o, off, n, w ), v = get( f, i.a[ 1 ] );
      if( i.op == I_CMPXCHG )
      {
        bool c = decide( s, eq( old.toE(), v.toE() ) ); if( c ) writeMem( s, o, off, get( f, i.a[ 2 ] ), n );
        f.r[ i.dst ] = old; f.r[ i.dst + 1 ] = Val::conc( c, 1 ); ++f.ip; break;
      }
      Val r;
      if( old.isU() || v.isU() ) r = Val::undef( w );
      else switch( (AtomicRMWInst::BinOp)i.sub )
      {
        case AtomicRMWInst::Xchg: r = v; break;
        case AtomicRMWInst::Add: r = Val::of( bin( O_ADD, old.toE(), v.toE() ) ); break;
        case AtomicRMWInst::Sub: r = Val::of( bin( O_SUB, old.toE(), v.toE() ) ); break;
        case AtomicRMWInst::And: r = Val::of( bin( O_AND, old.toE(), v.toE() ) ); break;
        case AtomicRMWInst::Or: r = Val::of( bin( O_OR, old.toE(), v.toE() ) ); break;
        default: unsupported( s, "atomicrmw" );
      }
      writeMem( s, o, off, r, n ); f.r[ i.dst ] = old; ++f.ip; break;
    }
    case I_CALL:
    {
      const Function * F = i.callee;
      Args a; a.reserve( i.a.size() ); for( size_t k = 1; k < i.a.size(); ++k ) a.push_back( get( f, i.a[ k ] ) );
      if( !F )
      {
        Val p = get( f, i.a[ 0 ] ); if( p.isU() ) observeUndef( s, "function pointer" );
        if( p.isS() ) concretize( s, p );
        u32 o = (u32)( ( p.c >> 32 ) - 1 );
        if( p.c < 0x1000 ) { report( s, "memory", "call through a null function pointer", nullptr ); endPath(); }
        if( o < fnOfObj.size() ) F = fnOfObj[ o ];
        if( !F ) { report( s, "memory", "call through a wild pointer", nullptr ); endPath(); }
      }
      if( F->isIntrinsic() ) { if( intrinsic( s, f, i, a, F->getIntrinsicID() ) ) advanceCall( f, i, s ); break; }
      if( F->isDeclaration() ) for( auto & c : opt.contracts ) if( F->getName().contains( c.first ) ) { F = M->getFunction( c.second ); if( !F ) unsupported( s, "missing contract " + c.second ); break; }
      if( !F->isDeclaration() && !F->getName().starts_with( "lv_" ) ) { callFn( s, f, i, F, a ); break; }
      std::string nm = F->getName().str();
      auto it = externs.find( nm );
      if( it != externs.end() ) { Ins t; const Ins * pi = &i; if( !i.callee ) { t = i; t.callee = F; pi = &t; } if( it->second( s, f, *pi, a ) ) advanceCall( s.th[ s.cur ].fr.back(), i, s ); break; }
      if( !F->isDeclaration() ) { callFn( s, f, i, F, a ); break; }
      unsigned w; int ar; std::string mb = mathBase( nm, w, ar );
      if( !mb.empty() ) { setRes( f, i, fmath( s, mb, a[ 0 ], ar == 2 ? &a[ 1 ] : nullptr, w ) ); advanceCall( f, i, s ); break; }
      if( nm == "sincos" || nm == "sincosf" )
      {
        w = nm == "sincos" ? 64 : 32; Val sn = fmath( s, "sin", a[ 0 ], nullptr, w ), cn = fmath( s, "cos", a[ 0 ], nullptr, w );
        u32 o; u64 off; resolve( s, a[ 1 ], w / 8, true, o, off ); writeMem( s, o, off, sn, w / 8 ); resolve( s, a[ 2 ], w / 8, true, o, off ); writeMem( s, o, off, cn, w / 8 ); advanceCall( f, i, s ); break;
      }
      if( nm.compare( 0, 10, "_ZSt2" ) == 0 || nm.find( "__throw_" ) != std::string::npos ) onAbort( s, "std exception: " + demangle( nm ) );
      unsupported( s, "external function " + demangle( nm ) );
    }
    case I_RET:
    {
      std::vector< Val > t; for( auto & o : i.a ) t.push_back( get( f, o ) );
      int rs = f.retSlot; u32 rn = f.retN; const Ins * call = f.call;
      popFrame( s );
      Thread & T = s.th[ s.cur ];
      if( T.fr.empty() )
      {
        if( s.cur == 0 ) { T.done = true; break; }
        T.done = true; std::vector< u32 > r = runnable( s );
        if( r.empty() ) { s.cur = 0; break; }
        switchTo( s, r, false ); break;
      }
      Frame & g = T.fr.back();
      for( u32 k = 0; k < rn && k < t.size(); ++k ) g.r[ rs + (int)k ] = t[ k ];
      advanceCall( g, *call, s );
      break;
    }
    case I_UNREACHABLE: report( s, "unreachable", "control reached a point the compiler may assume unreachable", nullptr ); endPath();
    default: { std::string t; raw_string_ostream os( t ); i.I->print( os ); unsupported( s, "instruction " + t ); }
  }
}

// ---------------------------------------------------------------------------------------------------------------- main
static void runToEnd( State * s, bool init )
{
  try
  {
    for(;; )
    {
      if( s->th[ 0 ].done ) { if( init ) return; finishEntry( *s ); }
      step( *s );
      s->forced.clear();
      if( ( nSteps & 1023 ) == 0 && nowS() - tStart > opt.maxTime )
      { incomplete( "time limit" ); throw PathEnd(); }
    }
  }
  catch( PathEnd const & ) { if( init ) { fprintf( stderr, "[lvsym] a global constructor failed\n" ); for( auto & v : violations ) fprintf( stderr, "%s %s %s\n", v.kind.c_str(), v.msg.c_str(), v.stack.c_str() ); for( auto & w : incompleteWhy ) fprintf( stderr, "%s\n", w.first.c_str() ); exit( 2 ); } destroy( s ); }
}

static void writeJson( double wall )
{
  FILE * o = opt.json.empty() ? stdout : fopen( opt.json.c_str(), "w" );
  if( !o ) { perror( "json" ); exit( 2 ); }
  fprintf( o, "{\"entry\":\"%s\",\"mode\":\"%s\",\"paths\":%llu,\"aborted_paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"asserts\":%llu,\"symbolic_asserts\":%llu,\"memory_checks\":%llu,\"symbolic_addresses\":%llu,\"overflow_checks\":%llu,\"concretisations\":%llu,\n",
           jesc( opt.entry ).c_str(), opt.real ? "real" : "ieee", (unsigned long long)nPaths, (unsigned long long)nAborts, (unsigned long long)nForks, (unsigned long long)nSteps, (unsigned long long)nAsserts, (unsigned long long)nSymAsserts,
           (unsigned long long)nMemChecks, (unsigned long long)nSymMem, (unsigned long long)nOvfQ, (unsigned long long)nConcretize );
  fprintf( o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"incomplete\":%llu,\"unsupported\":%llu,\"killed_by_assumption\":%llu,\"pending\":%zu,\n",
           (unsigned long long)S->queries, (unsigned long long)S->satN, (unsigned long long)S->unsatN, (unsigned long long)S->unknownN, S->time, S->maxTime, wall, (unsigned long long)nIncomplete, (unsigned long long)nUnsupported, (unsigned long long)nKilledAssume, work.size() );
  fprintf( o, "\"incomplete_why\":{" ); bool c = false; for( auto & w : incompleteWhy ) { fprintf( o, "%s\"%s\":%llu", c ? "," : "", jesc( w.first ).c_str(), (unsigned long long)w.second ); c = true; }
  fprintf( o, "},\n\"labels\":{" ); c = false; for( auto & w : labels ) { fprintf( o, "%s\"%s\":%llu", c ? "," : "", jesc( w.first ).c_str(), (unsigned long long)w.second ); c = true; }
  fprintf( o, "},\n\"functions\":[" ); c = false; for( auto & w : covFns ) { fprintf( o, "%s\"%s\"", c ? "," : "", jesc( w ).c_str() ); c = true; }
  if( char const * dump = getenv( "LV_COVDUMP" ) ) if( FILE * g = fopen( dump, "a" ) ) { for( auto & l : covLines ) fprintf( g, "%s\t%s\t%s:%u\n", opt.bc.c_str(), opt.entry.c_str(), l.first.c_str(), l.second ); fclose( g ); }
  std::map< std::string, u64 > lf; for( auto & l : covLines ) ++lf[ l.first ];
  fprintf( o, "],\n\"lines\":{" ); c = false; for( auto & w : lf ) { fprintf( o, "%s\"%s\":%llu", c ? "," : "", jesc( w.first ).c_str(), (unsigned long long)w.second ); c = true; }
  auto ins = [&]( std::vector< std::pair< std::string, std::string > > const & v ) { fprintf( o, "[" ); bool d = false; for( auto & p : v ) { fprintf( o, "%s[\"%s\",\"%s\"]", d ? "," : "", jesc( p.first ).c_str(), jesc( p.second ).c_str() ); d = true; } fprintf( o, "]" ); };
  fprintf( o, "},\n\"violations\":[" ); c = false;
  for( auto & v : violations )
  {
    fprintf( o, "%s\n{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"stack\":\"%s\",\"inputs\":", c ? "," : "", jesc( v.kind ).c_str(), jesc( v.msg ).c_str(), jesc( v.loc ).c_str(), jesc( v.stack ).c_str() ); ins( v.in ); fprintf( o, "}" ); c = true;
  }
  fprintf( o, "],\n\"samples\":[" ); c = false;
  for( auto & v : samples )
  {
    fprintf( o, "%s\n{\"aborted\":%s,\"inputs\":", c ? "," : "", v.aborted ? "true" : "false" ); ins( v.in ); fprintf( o, ",\"obs\":[" );
    bool d = false; for( u64 x : v.obs ) { fprintf( o, "%s\"%llu\"", d ? "," : "", (unsigned long long)x ); d = true; } fprintf( o, "]}" ); c = true;
  }
  fprintf( o, "]}\n" );
  if( o != stdout ) fclose( o );
}

int main( int argc, char ** argv )
{
  for( int i = 1; i < argc; ++i )
  {
    std::string a = argv[ i ]; auto nx = [&]() { return std::string( argv[ ++i ] ); };
    if( a == "--entry" ) opt.entry = nx(); else if( a == "--json" ) opt.json = nx(); else if( a == "--real" ) opt.real = true; else if( a == "--no-div0" ) opt.div0 = false; else if( a == "--max-time" ) opt.maxTime = atof( nx().c_str() );
    else if( a == "--max-steps" ) opt.maxSteps = strtoull( nx().c_str(), 0, 10 ); else if( a == "--samples" ) opt.samples = atoi( nx().c_str() ); else if( a == "--no-ovf" ) opt.checkOvf = false;
    else if( a == "--preempt" ) opt.preempt = atoi( nx().c_str() ); else if( a == "--solver-ms" ) opt.solverMs = atoi( nx().c_str() ); else if( a == "--trace" ) opt.trace = true; else if( a == "--fp" ) opt.bfs = true;
    else if( a == "--dump" ) opt.dumpDir = nx(); else if( a == "--dump-every" ) opt.dumpEvery = strtoull( nx().c_str(), 0, 10 ); else if( a == "--cov-prefix" ) opt.covPrefix = nx(); else if( a == "--max-viol" ) opt.maxViol = atoi( nx().c_str() );
    else if( a == "--contract" ) { std::string n = nx(); opt.contracts.emplace_back( n, nx() ); }
    else if( a[ 0 ] == '-' ) { fprintf( stderr, "unknown option %s\n", a.c_str() ); return 2; }
    else opt.bc = a;
  }
  tStart = nowS();
  SMDiagnostic err; M = parseIRFile( opt.bc, err, Ctx );
  if( !M ) { err.print( "lvsym", errs() ); return 2; }
  DL = &M->getDataLayout();
  const Function * EF = M->getFunction( opt.entry );
  if( !EF || EF->isDeclaration() ) { fprintf( stderr, "[lvsym] no entry %s\n", opt.entry.c_str() ); return 2; }
  S = new Solver; S->timeoutMs = opt.solverMs; S->setTimeout( S->inc ); S->freshMode = opt.real || opt.bfs; S->realMode = opt.real; S->dumpDir = opt.dumpDir; S->dumpEvery = (unsigned)opt.dumpEvery;
  initExterns();
  State * s = new State; ++nStates;
  for( auto & F : *M ) { gObj[ &F ] = (u32)s->objs.size(); Obj o; o.kind = OK_FUNC; o.size = 1; s->objs.push_back( o ); fnOfObj.resize( s->objs.size(), nullptr ); fnOfObj.back() = &F; }
  for( auto & G : M->globals() )
  {
    gObj[ &G ] = (u32)s->objs.size(); Obj o; o.size = DL->getTypeAllocSize( G.getValueType() ); if( !G.hasInitializer() && G.getName().starts_with( "_ZTI" ) ) o.size = 16 + G.getName().size() - 3; o.kind = G.isConstant() ? OK_CONSTG : OK_GLOBAL; o.d = new ObjData; o.d->b.assign( o.size, 0 ); o.d->init.assign( o.size, G.hasInitializer() ? 0 : 1 ); s->objs.push_back( o ); fnOfObj.resize( s->objs.size(), nullptr );
  }
  for( auto & G : M->globals() ) if( G.hasInitializer() ) initGlobal( s->objs[ gObj[ &G ] ].d, G.getInitializer(), 0 ); else if( G.getName().starts_with( "_ZTI" ) ) { // type_info of a library type: its name follows it
    ObjData * d = s->objs[ gObj[ &G ] ].d; Val v = constScalar( &G ); v.c += 16; memcpy( &d->b[ 8 ], &v.c, 8 ); std::string n = G.getName().substr( 4 ).str(); memcpy( &d->b[ 16 ], n.data(), n.size() ); memset( &d->init[ 0 ], 1, d->init.size() ); }
  auto pushEntry = [&]( const Function * F )
  {
    Frame f; f.fn = getFn( F ); f.bb = f.ip = f.prev = 0; f.retSlot = -1; f.retN = 0; f.call = nullptr; f.r.assign( f.fn->nslots, Val::undef( 64 ) );
    s->th.clear(); s->th.resize( 1 ); s->th[ 0 ].fr.push_back( f );
  };
  if( GlobalVariable * gc = M->getNamedGlobal( "llvm.global_ctors" ) )
    if( auto * ca = dyn_cast_or_null< ConstantArray >( gc->hasInitializer() ? gc->getInitializer() : nullptr ) )
      for( auto & op : ca->operands() )
      {
        auto * F = dyn_cast< Function >( cast< ConstantStruct >( op )->getOperand( 1 )->stripPointerCasts() );
        if( F ) { pushEntry( F ); runToEnd( s, true ); }
      }
  s->heapBase = (i64)s->liveHeap; s->steps = 0;
  pushEntry( EF );
  work.push_back( s );
  bool timeUp = false;
  while( !work.empty() )
  {
    State * t = work.back(); work.pop_back();
    if( nowS() - tStart > opt.maxTime ) { if( !timeUp ) incomplete( "time limit" ); timeUp = true; work.push_back( t ); break; }
    runToEnd( t, false );
    if( violations.size() >= opt.maxViol ) { incomplete( "stopped after " + std::to_string( violations.size() ) + " violations" ); break; }
  }
  writeJson( nowS() - tStart );
  fflush( nullptr ); _exit( violations.empty() ? 0 : 1 );
}
