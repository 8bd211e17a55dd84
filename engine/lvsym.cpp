// lvsym: symbolic executor for LLVM bitcode used by the LvArray checks.
// Executes one harness entry point of the given module symbolically with Z3 deciding every branch, every memory bound and every
// assertion, and writes a JSON report.  See DESIGN.md for the semantics it implements.
#include "ir.hpp"
#include "solver.hpp"
#include <set>
#include <memory>
#include <algorithm>
#include <sstream>
#include <unistd.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

// ---------------------------------------------------------------------------------------------------------------- options
struct Options
{
  std::string bc, entry, json, dumpDir; bool real = false, div0 = true, checkOvf = true; double maxTime = 60; u64 maxSteps = 3000000, maxPaths = 10000000;
  unsigned samples = 40, solverMs = 20000, preempt = 1000, maxViol = 6; std::string covPrefix = "/repo/"; bool trace = false; u64 dumpEvery = 0; bool bfs = false; std::vector< std::pair< std::string, std::string > > contracts;
} opt;

static std::unique_ptr< Module > M; static const DataLayout * DL; static LLVMContext Ctx;
static std::unordered_map< const Function *, Fn * > fnOf;
static std::unordered_map< const GlobalValue *, u32 > gObj;   // object id of a global / function
static std::vector< const Function * > fnOfObj;               // by object id
static Solver * S;
static Evaluator EV;

static inline u64 baseOf( u32 obj ) { return ( (u64)( obj + 1 ) << 32 ) + 0x1000; }

// ---------------------------------------------------------------------------------------------------------------- memory
struct Cell { E e; u16 n; };
struct ObjData
{
  int rc = 1;
  std::vector< u8 > b, init;          // init: 0 undefined, 1 concrete byte, 2 covered by a cell
  std::map< u32, Cell > cells;
};
enum ObjKind : u8 { OK_GLOBAL, OK_CONSTG, OK_STACK, OK_HEAP, OK_FUNC, OK_HEAPARR, OK_MALLOC };
struct Obj
{
  ObjData * d = nullptr; u64 size = 0; ObjKind kind = OK_GLOBAL; bool alive = true; const Instruction * site = nullptr;
};

// ---------------------------------------------------------------------------------------------------------------- state
struct Frame { Fn * fn; u32 bb, ip, prev; std::vector< Val > r; std::vector< u32 > allocas; int retSlot; u32 retN; const Ins * call; };
struct Thread { std::vector< Frame > fr; bool done = false, joining = false; };
struct Input { std::string name; E e; u64 c; u16 w; u8 kind; };   // kind 0 bv, 1 real, 2 schedule, 3 IEEE
struct Acc { u32 r = 0, w = 0, a = 0; };   // thread masks: plain reads, plain writes, atomic accesses

struct State
{
  std::vector< Thread > th; u32 cur = 0;
  std::vector< Obj > objs;
  std::vector< E > pc;
  std::vector< u64 > model; bool modelOk = true;
  std::vector< Input > in; std::vector< Val > obs;
  std::vector< std::pair< E, bool > > forced;
  u64 steps = 0; u32 symOrd = 0; u32 preempts = 0; u64 liveHeap = 0; bool inConc = false; u32 atomicDepth = 0;
  int expect = 0; E expectCond = nullptr; i64 heapBase = 0; bool noLeak = false;
  std::map< u64, Acc > acc;
  u32 depth = 0;
  State() {}
  State( State const & o ) = default;
};

static void retain( State & s ) { for( Obj & o : s.objs ) if( o.d ) ++o.d->rc; }
static void releaseObj( Obj & o ) { if( o.d ) { if( --o.d->rc == 0 ) delete o.d; o.d = nullptr; } }
static void destroy( State * s ) { for( Obj & o : s->objs ) releaseObj( o ); delete s; }
static ObjData * mut( Obj & o )
{
  if( o.d->rc > 1 ) { --o.d->rc; ObjData * n = new ObjData( *o.d ); n->rc = 1; o.d = n; }
  return o.d;
}

// ---------------------------------------------------------------------------------------------------------------- reporting
struct Violation { std::string kind, msg, loc; std::vector< std::pair< std::string, std::string > > in; std::string stack; };
static std::vector< Violation > violations; static std::map< std::string, int > violSeen;
struct Sample { std::vector< std::pair< std::string, std::string > > in; std::vector< u64 > obs; bool aborted; };
static std::vector< Sample > samples; static u64 sampleSeen = 0;
static u64 nPaths = 0, nAborts = 0, nForks = 0, nSteps = 0, nIncomplete = 0, nUnsupported = 0, nAsserts = 0, nSymAsserts = 0, nKilledAssume = 0, nStates = 0, nMemChecks = 0, nSymMem = 0, nOvfQ = 0, nConcretize = 0;
static std::map< std::string, u64 > labels, incompleteWhy;
static double tStart;
static std::vector< State * > work;
static std::set< std::pair< std::string, unsigned > > covLines; static std::set< std::string > covFns;
static std::unordered_set< const Instruction * > covSeen;
static std::map< std::pair< u32, std::string >, E > symCache;

static std::string jesc( std::string const & s )
{
  std::string o; char b[8];
  for( unsigned char c : s ) { if( c == '"' || c == '\\' ) { o += '\\'; o += c; } else if( c < 32 || c > 126 ) { snprintf( b, 8, "\\u%04x", c ); o += b; } else o += c; }
  return o;
}

static std::string locOf( const Instruction * I )
{
  std::string r; 
  if( !I ) return "?";
  DebugLoc L = I->getDebugLoc();
  const DILocation * d = L.get(); int n = 0;
  while( d && n < 3 )
  {
    if( n++ ) r += " < ";
    std::string f = d->getFilename().str(); size_t p = f.rfind( '/' );
    r += ( p == std::string::npos ? f : f.substr( p + 1 ) ) + ":" + std::to_string( d->getLine() );
    d = d->getInlinedAt();
  }
  return r.empty() ? "?" : r;
}
static std::string fnName( const Function * F ) { return demangle( F->getName().str() ); }

static void cover( const Instruction * I )
{
  if( !covSeen.insert( I ).second ) return;
  const DILocation * d = I->getDebugLoc().get();
  while( d )
  {
    std::string f = d->getFilename().str();
    if( f[0] != '/' ) f = d->getDirectory().str() + "/" + f;
    if( f.compare( 0, opt.covPrefix.size(), opt.covPrefix ) == 0 )
    {
      covLines.insert( { f, d->getLine() } );
      if( const DISubprogram * sp = d->getScope()->getSubprogram() )
      {
        std::string n = sp->getLinkageName().empty() ? sp->getName().str() : sp->getName().str();
        size_t p = f.rfind( '/' );
        size_t lt = n.find( '<' ); if( lt != std::string::npos && lt > 0 && n.compare( 0, 8, "operator" ) != 0 ) n = n.substr( 0, lt );
        covFns.insert( f.substr( p + 1 ) + ":" + n );
      }
    }
    d = d->getInlinedAt();
  }
}

static const Instruction * curI( State & s )
{
  if( s.th.empty() || s.th[ s.cur ].fr.empty() ) return nullptr;
  Frame & f = s.th[ s.cur ].fr.back(); auto & ins = f.fn->blocks[ f.bb ].ins;
  u32 ip = f.ip < ins.size() ? f.ip : (u32)ins.size() - 1;
  return ins[ ip ].I;
}
static std::string stackOf( State & s )
{
  std::string r;
  auto & fr = s.th[ s.cur ].fr; int n = 0;
  for( int i = (int)fr.size() - 1; i >= 0 && n < 12; --i, ++n )
  {
    auto & ins = fr[ i ].fn->blocks[ fr[ i ].bb ].ins; u32 ip = fr[ i ].ip < ins.size() ? fr[ i ].ip : (u32)ins.size() - 1;
    std::string nm = fnName( fr[ i ].fn->F ); if( nm.size() > 140 ) nm = nm.substr( 0, 140 ) + "...";
    r += nm + " @ " + locOf( ins[ ip ].I ) + "; ";
  }
  return r;
}

static std::vector< std::pair< std::string, std::string > > inputsOf( State & s, std::vector< u64 > const & m, std::map< u64, std::string > const & rm )
{
  std::vector< std::pair< std::string, std::string > > v; EV.begin( &m );
  for( Input const & i : s.in )
  {
    std::string x;
    if( i.kind == 1 ) { auto it = rm.find( i.e->c ); x = it == rm.end() ? "0.0" : it->second; }
    else if( i.e ) x = std::to_string( EV.eval( i.e ) );
    else x = std::to_string( i.c );
    v.push_back( { i.name, x } );
  }
  return v;
}

static void report( State & s, std::string const & kind, std::string const & msg, E extra, std::vector< u64 > const * mdl = nullptr )
{
  std::string loc = locOf( curI( s ) ), key = kind + "|" + msg + "|" + loc;
  int & n = violSeen[ key ];
  if( n++ >= 2 || violations.size() >= opt.maxViol * 4 ) return;
  std::vector< u64 > m; std::map< u64, std::string > rm;
  if( mdl ) m = *mdl;
  else if( S->freshMode || opt.real ) { if( S->check( s.pc, extra, &m, &rm ) != SR_SAT ) { --n; return; } }
  else m = s.model;
  if( mdl && opt.real ) { std::vector< u64 > mm; if( S->check( s.pc, extra, &mm, &rm ) == SR_SAT ) m = mm; }
  violations.push_back( { kind, msg, loc, inputsOf( s, m, rm ), stackOf( s ) } );
  if( opt.trace ) fprintf( stderr, "[lvsym] VIOLATION %s: %s at %s\n", kind.c_str(), msg.c_str(), loc.c_str() );
}
static void incomplete( std::string const & why ) { ++nIncomplete; ++incompleteWhy[ why ]; if( opt.trace && incompleteWhy[ why ] < 4 ) fprintf( stderr, "[lvsym] incomplete: %s\n", why.c_str() ); }

struct PathEnd {};          // thrown to stop the current path
[[noreturn]] static void endPath() { throw PathEnd(); }
struct Retry {};            // restart the current instruction
[[noreturn]] static void unsupported( State & s, std::string const & w ) { ++nUnsupported; incomplete( "unsupported: " + w + " at " + locOf( curI( s ) ) ); endPath(); }

// ---------------------------------------------------------------------------------------------------------------- solving
static bool inPc( State & s, E c ) { for( size_t i = s.pc.size(); i-- > 0; ) if( s.pc[ i ] == c ) return true; return false; }

static State * fork( State & s ) { State * n = new State( s ); retain( *n ); ++nForks; ++nStates; return n; }

static void addPc( State & s, E c ) { if( c->op == O_CONST ) return; s.pc.push_back( c ); }

// Is pc /\ c satisfiable?  Updates *m.
static SatRes sat( State & s, E c, std::vector< u64 > * m )
{
  if( isC( c ) && !c->c ) return SR_UNSAT;
  return S->check( s.pc, c, m );
}
// Value of c under the state's model: 0/1, or -1 when the model cannot tell.
static int byModel( State & s, E c )
{
  if( !s.modelOk ) return -1;
  EV.begin( &s.model ); u64 v = EV.eval( c );
  return EV.real ? -1 : (int)v;
}

// Decide a symbolic condition; may fork (the other side re-executes the current instruction).
static bool decide( State & s, E c )
{
  if( isC( c ) ) return c->c;
  for( auto & f : s.forced ) if( f.first == c ) return f.second;
  E nc = bnot( c );
  for( size_t i = s.pc.size(); i-- > 0; ) { if( s.pc[ i ] == c ) return true; if( s.pc[ i ] == nc ) return false; }
  int mv = byModel( s, c );
  std::vector< u64 > m;
  if( mv >= 0 )
  {
    E other = mv ? nc : c;
    SatRes r = sat( s, other, &m );
    if( r == SR_UNSAT ) { s.forced.push_back( { c, (bool)mv } ); return mv; }
    if( r == SR_SAT )
    {
      State * o = fork( s ); o->pc.push_back( other ); o->model = m; o->modelOk = true; o->forced.push_back( { c, !mv } );
      work.push_back( o );
    }
    else incomplete( "solver unknown on a branch" );
    s.pc.push_back( mv ? c : nc ); s.forced.push_back( { c, (bool)mv } );
    return mv;
  }
  std::vector< u64 > m1, m2;
  SatRes r1 = sat( s, c, &m1 ), r2 = sat( s, nc, &m2 );
  if( r1 == SR_UNKNOWN ) incomplete( "solver unknown on a branch" );
  if( r2 == SR_UNKNOWN ) incomplete( "solver unknown on a branch" );
  if( r1 == SR_SAT && r2 == SR_SAT )
  {
    State * o = fork( s ); o->pc.push_back( nc ); o->model = m2; o->forced.push_back( { c, false } ); work.push_back( o );
    s.pc.push_back( c ); s.model = m1; s.forced.push_back( { c, true } ); return true;
  }
  if( r1 == SR_SAT ) { s.model = m1; addPc( s, c ); s.forced.push_back( { c, true } ); return true; }
  if( r2 == SR_SAT ) { s.model = m2; addPc( s, nc ); s.forced.push_back( { c, false } ); return false; }
  endPath();
}

static void assume( State & s, E c )
{
  if( isC( c ) ) { if( !c->c ) { ++nKilledAssume; endPath(); } return; }
  if( inPc( s, c ) ) return;
  int mv = byModel( s, c );
  if( mv == 1 ) { s.pc.push_back( c ); return; }
  std::vector< u64 > m; SatRes r = sat( s, c, &m );
  if( r == SR_UNSAT ) { ++nKilledAssume; endPath(); }
  if( r == SR_UNKNOWN ) { incomplete( "solver unknown on an assumption" ); if( opt.real ) { s.pc.push_back( c ); return; } endPath(); }
  s.model = m; s.pc.push_back( c );
}

// When the solver gives up (for IEEE arithmetic: before it is asked), a model is looked for among a few hundred assignments of telling values, evaluated exactly. A hit is a counterexample like any other
// (it is replayed); a miss leaves the query undecided.
static bool guessModel( State & s, E bad, std::vector< u64 > & out )
{
  if( opt.real ) return false;
  static const double special[] = { 0, 1, -1, 2, 3, 0.5, 0.1, 3.1, -2.7, 1e10, 1e-10, 1e40, 1e-40, 1e300, 5e-324, 16777217, 33554435, 4503599627370497.0 };
  u64 x = 88172645463325252ull; auto rnd = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
  for( int round = 0; round < 400; ++round )
  {
    std::vector< u64 > m( s.modelOk ? s.model : std::vector< u64 >() ); m.resize( P.syms.size() );
    for( auto & in : s.in )
    {
      if( !in.e || in.e->op != O_SYM || ( round & 1 && rnd() % 3 == 0 ) ) continue;
      unsigned const w = in.w; u64 v; double const d = rnd() % 4 ? special[ rnd() % ( sizeof( special ) / sizeof( *special ) ) ] : ( (double)(i64)rnd() ) / 1048576.0;
      if( in.kind == 3 && rnd() % 8 ) v = w == 64 ? dBits( d ) : fBits( (float)d );
      else v = rnd() % 3 ? rnd() >> ( rnd() % 64 ) : std::fabs( d ) < 9e18 ? (u64)(i64)d : rnd();
      if( in.e->c < m.size() ) m[ in.e->c ] = v & maskw( w );
    }
    EV.begin( &m ); bool ok = EV.eval( bad ) && !EV.real;
    for( size_t i = 0; ok && i < s.pc.size(); ++i ) ok = EV.eval( s.pc[ i ] ) && !EV.real;
    if( ok ) { out = m; return true; }
  }
  return false;
}

// Report a violation if pc /\ bad is satisfiable; continue with !bad (the path ends when bad is certain).
static void checkNot( State & s, E bad, std::string const & kind, std::string const & msg )
{
  if( isC( bad ) ) { if( bad->c ) { report( s, kind, msg, nullptr ); endPath(); } return; }
  E nb = bnot( bad );
  if( inPc( s, nb ) ) return;
  int mv = byModel( s, bad );
  std::vector< u64 > m;
  if( mv == 1 )
  {
    report( s, kind, msg, bad );
    assume( s, nb ); return;
  }
  if( opt.bfs && guessModel( s, bad, m ) ) { report( s, kind, msg, bad, &m ); assume( s, nb ); return; }   // IEEE queries are slow to refute
  SatRes r = sat( s, bad, &m );
  if( r == SR_SAT ) { report( s, kind, msg, bad, &m ); assume( s, nb ); }
  else if( r == SR_UNKNOWN && guessModel( s, bad, m ) ) { report( s, kind, msg, bad, &m ); assume( s, nb ); }
  else if( r == SR_UNKNOWN ) { incomplete( "solver unknown on " + kind + ": " + msg + " at " + locOf( curI( s ) ) ); s.pc.push_back( nb ); }
}

// A concrete value for v, forking over the others.
static u64 concretize( State & s, Val & v )
{
  if( v.isC() ) return v.c;
  if( v.isU() ) { report( s, "uninit", "use of an uninitialised value where a concrete one is needed", nullptr ); endPath(); }
  ++nConcretize;
  for( auto & f : s.forced ) if( f.second && f.first->op == O_EQ && f.first->k[0] == v.e && isC( f.first->k[1] ) ) { v = Val::conc( f.first->k[1]->c, v.w, v.prov ); return v.c; }
  for( E p : s.pc ) if( p->op == O_EQ && p->k[0] == v.e && isC( p->k[1] ) ) { v = Val::conc( p->k[1]->c, v.w, v.prov ); return v.c; }
  if( v.w == WREAL ) unsupported( s, "concretising a real" );
  if( !s.modelOk || ( EV.begin( &s.model ), EV.eval( v.e ), EV.real ) )
  { std::vector< u64 > m; if( S->check( s.pc, nullptr, &m ) != SR_SAT ) { incomplete( "solver unknown" ); endPath(); } s.model = m; s.modelOk = true; }
  EV.begin( &s.model ); u64 x = EV.eval( v.e );
  E c = eq( v.e, kc( x, v.w ) );
  std::vector< u64 > m; SatRes r = sat( s, bnot( c ), &m );
  if( r == SR_SAT ) { State * o = fork( s ); o->pc.push_back( bnot( c ) ); o->model = m; work.push_back( o ); }
  else if( r == SR_UNKNOWN ) incomplete( "solver unknown on a value" );
  s.pc.push_back( c ); s.forced.push_back( { c, true } );
  u32 p = v.prov; v = Val::conc( x, v.w, p ); return x;
}

// ---------------------------------------------------------------------------------------------------------------- objects
static u32 newObj( State & s, u64 size, ObjKind k, const Instruction * site )
{
  Obj o; o.d = new ObjData; o.size = size; o.kind = k; o.site = site;
  o.d->b.assign( size, 0 ); o.d->init.assign( size, 0 );
  s.objs.push_back( o ); return (u32)s.objs.size() - 1;
}

static void resolve( State & s, Val & addr, u64 size, bool write, u32 & obj, u64 & off, bool isFree = false )
{
  if( addr.isU() ) { report( s, "uninit", "access through an uninitialised pointer", nullptr ); endPath(); }
  ++nMemChecks;
  if( addr.isS() )
  {
    ++nSymMem;
    if( addr.prov )
    {
      Obj & o = s.objs[ addr.prov - 1 ];
      if( o.alive )
      {
        E offE = bin( O_SUB, addr.e, kc( baseOf( addr.prov - 1 ), 64 ) );
        E bad = o.size < size ? kc( 1, 1 ) : cmp( O_ULT, kc( o.size - size, 64 ), offE );
        checkNot( s, bad, "memory", std::string( "out of bounds " ) + ( write ? "write" : "read" ) );
      }
    }
    concretize( s, addr );
  }
  u64 a = addr.c; u32 ob = addr.prov ? addr.prov - 1 : (u32)( ( a >> 32 ) - 1 );
  if( a < 0x1000 ) { report( s, "memory", size ? "null pointer dereference" : "null pointer use", nullptr ); endPath(); }
  if( ( !addr.prov && ( a >> 32 ) == 0 ) || ob >= s.objs.size() ) { report( s, "memory", "wild pointer dereference", nullptr ); endPath(); }
  Obj & o = s.objs[ ob ];
  if( o.kind == OK_FUNC ) { report( s, "memory", "data access to a function", nullptr ); endPath(); }
  if( !o.alive ) { report( s, "memory", o.kind == OK_STACK ? "use of a dead stack object" : "use after free", nullptr ); endPath(); }
  u64 of = a - baseOf( ob );
  if( !isFree && ( of > o.size || o.size - of < size ) )
  { report( s, "memory", std::string( "out of bounds " ) + ( write ? "write" : "read" ) + ( o.kind == OK_STACK ? " (stack object)" : o.kind >= OK_HEAP ? " (heap object)" : " (global)" ), nullptr ); endPath(); }
  if( write && o.kind == OK_CONSTG ) { report( s, "memory", "write to a constant", nullptr ); endPath(); }
  obj = ob; off = of;
}

static void raceCheck( State & s, u32 obj, u64 off, u64 n, bool write )
{
  if( !s.inConc || s.th.size() < 2 ) return;
  Obj & o = s.objs[ obj ];
  if( o.kind == OK_CONSTG ) return;
  u32 me = 1u << s.cur;
  if( s.cur == 0 ) return;
  for( u64 i = 0; i < n; ++i )
  {
    Acc & a = s.acc[ baseOf( obj ) + off + i ];
    bool atomic = s.atomicDepth > 0;
    u32 others = write ? ( atomic ? ( a.r | a.w ) : ( a.r | a.w | a.a ) ) : ( atomic ? a.w : ( a.w | a.a ) );
    if( !atomic && !write ) others = a.w | a.a;
    if( atomic ) others = a.r | a.w;
    if( others & ~me ) { report( s, "race", "conflicting non-atomic accesses by two threads", nullptr ); endPath(); }
    if( atomic ) a.a |= me; else if( write ) a.w |= me; else a.r |= me;
  }
}

static void clearCells( ObjData * d, u64 off, u64 n )
{
  if( d->cells.empty() ) return;
  auto it = d->cells.lower_bound( (u32)( off >= 16 ? off - 16 : 0 ) );
  std::vector< std::pair< u32, Cell > > add;
  while( it != d->cells.end() && it->first < off + n )
  {
    u32 o = it->first; Cell c = it->second;
    if( o + c.n <= off ) { ++it; continue; }
    it = d->cells.erase( it );
    if( o >= off && o + c.n <= off + n ) continue;
    if( c.e->w == WREAL ) { for( u32 i = o; i < o + c.n; ++i ) d->init[ i ] = 0; continue; }
    for( u32 i = 0; i < c.n; ++i )
    {
      if( o + i >= off && o + i < off + n ) continue;
      E b = extract( c.e, i * 8, 8 );
      if( isC( b ) ) { d->b[ o + i ] = (u8)b->c; d->init[ o + i ] = 1; }
      else add.push_back( { o + i, Cell{ b, 1 } } );
    }
  }
  for( auto & x : add ) d->cells[ x.first ] = x.second;
}

static void writeMem( State & s, u32 obj, u64 off, Val v, u32 n )
{
  ObjData * d = mut( s.objs[ obj ] );
  clearCells( d, off, n );
  if( v.isU() ) { memset( &d->init[ off ], 0, n ); return; }
  if( v.isC() && n <= 8 ) { memcpy( &d->b[ off ], &v.c, n ); memset( &d->init[ off ], 1, n ); return; }
  E e = v.toE();
  if( e->w != WREAL && e->w != n * 8 ) e = zext( e, n * 8 );
  d->cells[ (u32)off ] = Cell{ e, (u16)n };
  memset( &d->init[ off ], 2, n );
}

static E byteAt( ObjData * d, u64 off )
{
  if( d->init[ off ] == 1 ) return kc( d->b[ off ], 8 );
  auto it = d->cells.upper_bound( (u32)off ); --it;
  if( it->second.e->w == WREAL ) return nullptr;
  return extract( it->second.e, ( (u32)off - it->first ) * 8, 8 );
}

static Val readMem( State & s, u32 obj, u64 off, u32 n, unsigned w )
{
  ObjData * d = s.objs[ obj ].d;
  bool allC = true, anyU = false, anyI = false;
  for( u32 i = 0; i < n; ++i ) { u8 x = d->init[ off + i ]; if( x != 1 ) allC = false; if( x == 0 ) anyU = true; else anyI = true; }
  if( allC && n <= 8 )
  {
    u64 c = 0; memcpy( &c, &d->b[ off ], n );
    u32 prov = 0;
    if( n == 8 && w == 64 ) { u64 hi = c >> 32; if( hi >= 1 && hi <= s.objs.size() ) prov = (u32)hi; }
    return Val::conc( c, w, prov );
  }
  if( !anyI ) return Val::undef( w );
  if( !anyU )
  {
    auto it = d->cells.find( (u32)off );
    if( it != d->cells.end() && it->second.n == n )
    {
      E e = it->second.e;
      if( e->w == WREAL ) return Val::of( e );
      return Val::of( e->w == w ? e : extract( e, 0, w ) );
    }
  }
  else if( d->init[ off ] == 0 && w <= 8 ) return Val::undef( w );
  E r = nullptr;
  for( u32 i = 0; i < n; ++i )
  {
    E b = d->init[ off + i ] == 0 ? newSym( "garbage", 8, true ) : byteAt( d, off + i );
    if( !b ) unsupported( s, "partial read of a real" );
    r = r ? concat( b, r ) : b;
  }
  return Val::of( r->w == w ? r : extract( r, 0, w ) );
}

static void copyMem( State & s, u32 so, u64 soff, u32 dobj, u64 doff, u64 n )
{
  if( !n ) return;
  ObjData * sd0 = s.objs[ so ].d; ++sd0->rc;      // keep the source image while the destination is written
  ObjData * d = mut( s.objs[ dobj ] );
  ObjData * sd = sd0;
  clearCells( d, doff, n );
  memcpy( &d->b[ doff ], &sd->b[ soff ], n ); memcpy( &d->init[ doff ], &sd->init[ soff ], n );
  auto it = sd->cells.lower_bound( (u32)( soff >= 16 ? soff - 16 : 0 ) );
  std::vector< std::pair< u32, Cell > > add;
  for(; it != sd->cells.end() && it->first < soff + n; ++it )
  {
    u32 o = it->first; Cell const & c = it->second;
    if( o + c.n <= soff ) continue;
    if( o >= soff && o + c.n <= soff + n ) add.push_back( { (u32)( o - soff + doff ), c } );
    else for( u32 i = 0; i < c.n; ++i ) if( o + i >= soff && o + i < soff + n )
    {
      if( c.e->w == WREAL ) unsupported( s, "partial copy of a real" );
      E b = extract( c.e, i * 8, 8 );
      u32 t = (u32)( o + i - soff + doff );
      if( isC( b ) ) { d->b[ t ] = (u8)b->c; d->init[ t ] = 1; } else add.push_back( { t, Cell{ b, 1 } } );
    }
  }
  for( auto & x : add ) d->cells[ x.first ] = x.second;
  if( --sd0->rc == 0 ) delete sd0;
}

// ---------------------------------------------------------------------------------------------------------------- compile
static void leavesOf( Type * T, u64 off, std::vector< LeafT > & o )
{
  if( auto * st = dyn_cast< StructType >( T ) )
  {
    const StructLayout * L = DL->getStructLayout( st );
    for( unsigned i = 0; i < st->getNumElements(); ++i ) leavesOf( st->getElementType( i ), off + L->getElementOffset( i ), o );
  }
  else if( auto * at = dyn_cast< ArrayType >( T ) )
  { u64 sz = DL->getTypeAllocSize( at->getElementType() ); for( u64 i = 0; i < at->getNumElements(); ++i ) leavesOf( at->getElementType(), off + i * sz, o ); }
  else if( auto * vt = dyn_cast< FixedVectorType >( T ) )
  { u64 sz = DL->getTypeSizeInBits( vt->getElementType() ) / 8; for( u64 i = 0; i < vt->getNumElements(); ++i ) leavesOf( vt->getElementType(), off + i * sz, o ); }
  else
  {
    u64 bits = DL->getTypeSizeInBits( T );
    o.push_back( { (u32)off, (u16)bits, (u8)DL->getTypeStoreSize( T ), T->isPointerTy(), T->isFloatingPointTy() } );
  }
}
static u32 nLeaves( Type * T ) { if( T->isVoidTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy() ) return 0; std::vector< LeafT > v; leavesOf( T, 0, v ); return (u32)v.size(); }

static u64 globalAddr( const GlobalValue * g )
{
  if( auto * ga = dyn_cast< GlobalAlias >( g ) ) return globalAddr( cast< GlobalValue >( ga->getAliaseeObject() ) );
  auto it = gObj.find( g ); if( it == gObj.end() ) { fprintf( stderr, "unknown global %s\n", g->getName().str().c_str() ); exit( 2 ); }
  return baseOf( it->second );
}

static Val constScalar( const Constant * C );

static void constLeaves( const Constant * C, std::vector< Val > & o )
{
  Type * T = C->getType();
  if( T->isStructTy() || T->isArrayTy() || T->isVectorTy() )
  {
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? (unsigned)T->getArrayNumElements() : cast< FixedVectorType >( T )->getNumElements();
    for( unsigned i = 0; i < n; ++i )
    {
      Constant * el = C->getAggregateElement( i );
      if( !el ) { std::vector< LeafT > v; Type * et = T->isStructTy() ? T->getStructElementType( i ) : T->isArrayTy() ? T->getArrayElementType() : cast< FixedVectorType >( T )->getElementType(); leavesOf( et, 0, v ); for( auto & l : v ) o.push_back( Val::undef( l.w ) ); continue; }
      constLeaves( el, o );
    }
    return;
  }
  o.push_back( constScalar( C ) );
}

static Val constScalar( const Constant * C )
{
  Type * T = C->getType(); unsigned w = (unsigned)DL->getTypeSizeInBits( T );
  if( isa< UndefValue >( C ) ) return Val::undef( w );      // includes poison
  if( auto * ci = dyn_cast< ConstantInt >( C ) )
  {
    if( w > 64 )
    {
      APInt v = ci->getValue(); E lo = kc( v.extractBitsAsZExtValue( 64, 0 ), 64 ), hi = kc( v.extractBitsAsZExtValue( w - 64, 64 ), w - 64 );
      return Val::of( concat( hi, lo ) );
    }
    return Val::conc( ci->getZExtValue(), w );
  }
  if( auto * cf = dyn_cast< ConstantFP >( C ) )
  {
    if( w > 64 ) return Val::conc( cf->getValueAPF().bitcastToAPInt().extractBitsAsZExtValue( 64, 0 ), 64 );
    return Val::conc( cf->getValueAPF().bitcastToAPInt().getZExtValue(), w );
  }
  if( isa< ConstantPointerNull >( C ) ) return Val::conc( 0, 64 );
  if( auto * gv = dyn_cast< GlobalValue >( C ) ) { u64 a = globalAddr( gv ); return Val::conc( a, 64, (u32)( a >> 32 ) ); }
  if( auto * ce = dyn_cast< ConstantExpr >( C ) )
  {
    switch( ce->getOpcode() )
    {
      case Instruction::GetElementPtr:
      {
        Val b = constScalar( ce->getOperand( 0 ) ); APInt off( 64, 0 );
        if( !cast< GEPOperator >( ce )->accumulateConstantOffset( *DL, off ) ) break;
        return Val::conc( b.c + off.getZExtValue(), 64, b.prov );
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt:
      { Val b = constScalar( ce->getOperand( 0 ) ); return Val::conc( b.c, w, b.prov ); }
      case Instruction::Sub: { Val a = constScalar( ce->getOperand( 0 ) ), b = constScalar( ce->getOperand( 1 ) ); return Val::conc( a.c - b.c, w ); }
      case Instruction::Add: { Val a = constScalar( ce->getOperand( 0 ) ), b = constScalar( ce->getOperand( 1 ) ); return Val::conc( a.c + b.c, w ); }
      default: break;
    }
  }
  if( isa< ConstantAggregateZero >( C ) ) return Val::conc( 0, w );
  fprintf( stderr, "[lvsym] unsupported constant in module; treated as undefined\n" );
  return Val::undef( w );
}

static void initGlobal( ObjData * d, const Constant * C, u64 off )
{
  Type * T = C->getType();
  if( isa< ConstantAggregateZero >( C ) ) { u64 n = DL->getTypeAllocSize( T ); memset( &d->b[ off ], 0, n ); memset( &d->init[ off ], 1, n ); return; }
  if( auto * cd = dyn_cast< ConstantDataSequential >( C ) )
  { StringRef r = cd->getRawDataValues(); memcpy( &d->b[ off ], r.data(), r.size() ); memset( &d->init[ off ], 1, r.size() ); return; }
  if( auto * cs = dyn_cast< ConstantStruct >( C ) )
  { const StructLayout * L = DL->getStructLayout( cs->getType() ); for( unsigned i = 0; i < cs->getNumOperands(); ++i ) initGlobal( d, cs->getOperand( i ), off + L->getElementOffset( i ) ); return; }
  if( auto * ca = dyn_cast< ConstantArray >( C ) )
  { u64 sz = DL->getTypeAllocSize( ca->getType()->getElementType() ); for( unsigned i = 0; i < ca->getNumOperands(); ++i ) initGlobal( d, ca->getOperand( i ), off + i * sz ); return; }
  if( T->isStructTy() || T->isArrayTy() ) return;      // undef
  Val v = constScalar( C ); u32 n = (u32)DL->getTypeStoreSize( T );
  if( v.isC() && n <= 8 ) { memcpy( &d->b[ off ], &v.c, n ); memset( &d->init[ off ], 1, n ); }
}

struct Compiler
{
  Fn & f; std::unordered_map< const Value *, int > slot; std::unordered_map< const BasicBlock *, u32 > bbId;
  explicit Compiler( Fn & x ): f( x ) {}
  void ops( const Value * v, std::vector< Opd > & o )
  {
    if( auto * c = dyn_cast< Constant >( v ) ) { std::vector< Val > l; constLeaves( c, l ); for( auto & x : l ) o.push_back( { -1, x } ); return; }
    auto it = slot.find( v );
    u32 n = nLeaves( v->getType() );
    if( it == slot.end() ) { for( u32 i = 0; i < n; ++i ) o.push_back( { -1, Val::undef( 64 ) } ); return; }
    for( u32 i = 0; i < n; ++i ) o.push_back( { it->second + (int)i, Val() } );
  }
  static u32 leafIndex( Type * T, ArrayRef< unsigned > idx )
  {
    u32 r = 0;
    for( unsigned i : idx )
    {
      if( auto * st = dyn_cast< StructType >( T ) ) { for( unsigned k = 0; k < i; ++k ) r += nLeaves( st->getElementType( k ) ); T = st->getElementType( i ); }
      else { Type * et = T->isArrayTy() ? T->getArrayElementType() : cast< VectorType >( T )->getElementType(); r += i * nLeaves( et ); T = et; }
    }
    return r;
  }
  static Op binop( unsigned o )
  {
    switch( o )
    {
      case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL;
      case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV; case Instruction::URem: return O_UREM; case Instruction::SRem: return O_SREM;
      case Instruction::And: return O_AND; case Instruction::Or: return O_OR; case Instruction::Xor: return O_XOR;
      case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR; case Instruction::AShr: return O_ASHR;
      case Instruction::FAdd: return O_FADD; case Instruction::FSub: return O_FSUB; case Instruction::FMul: return O_FMUL; case Instruction::FDiv: return O_FDIV; case Instruction::FRem: return O_FREM;
    }
    return O_CONST;
  }
  void run()
  {
    const Function & F = *f.F;
    u32 ns = 0;
    for( auto & A : F.args() ) { u32 n = nLeaves( A.getType() ); slot[ &A ] = ns; f.argSlot.push_back( ns ); f.argN.push_back( n ); ns += n; }
    for( auto & B : F ) { bbId[ &B ] = (u32)bbId.size(); }
    for( auto & B : F ) for( auto & I : B ) { u32 n = nLeaves( I.getType() ); if( n ) { slot[ &I ] = ns; ns += n; } }
    f.nslots = ns; f.blocks.resize( bbId.size() );
    for( auto & B : F )
    {
      Block & b = f.blocks[ bbId[ &B ] ];
      for( auto & I : B )
      {
        if( auto * ph = dyn_cast< PHINode >( &I ) )
        {
          Phi p; p.dst = slot[ ph ]; p.n = nLeaves( ph->getType() );
          for( unsigned i = 0; i < ph->getNumIncomingValues(); ++i ) { std::vector< Opd > o; ops( ph->getIncomingValue( i ), o ); p.in.push_back( { bbId[ ph->getIncomingBlock( i ) ], o } ); }
          b.phis.push_back( p ); continue;
        }
        if( isa< DbgInfoIntrinsic >( I ) ) continue;
        Ins x; x.I = &I; auto it = slot.find( &I ); if( it != slot.end() ) { x.dst = it->second; x.n = nLeaves( I.getType() ); }
        if( x.n ) x.w = 0;
        if( !I.getType()->isVoidTy() && !I.getType()->isAggregateType() && !I.getType()->isVectorTy() && !I.getType()->isTokenTy() ) { x.w = (u16)DL->getTypeSizeInBits( I.getType() ); x.isPtr = I.getType()->isPointerTy(); }
        x.op = I_UNSUPPORTED;
        switch( I.getOpcode() )
        {
          case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
          case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            x.op = I_BIN; x.sub = binop( I.getOpcode() ); ops( I.getOperand( 0 ), x.a ); ops( I.getOperand( 1 ), x.a );
            if( auto * o = dyn_cast< OverflowingBinaryOperator >( &I ) ) { x.nsw = o->hasNoSignedWrap(); x.nuw = o->hasNoUnsignedWrap(); }
            break;
          case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
            x.op = I_FBIN; x.sub = binop( I.getOpcode() ); ops( I.getOperand( 0 ), x.a ); ops( I.getOperand( 1 ), x.a ); break;
          case Instruction::FNeg: x.op = I_FNEG; ops( I.getOperand( 0 ), x.a ); break;
          case Instruction::ICmp: x.op = I_ICMP; x.sub = (u8)cast< ICmpInst >( I ).getPredicate(); ops( I.getOperand( 0 ), x.a ); ops( I.getOperand( 1 ), x.a ); break;
          case Instruction::FCmp: x.op = I_FCMP; x.sub = (u8)cast< FCmpInst >( I ).getPredicate(); ops( I.getOperand( 0 ), x.a ); ops( I.getOperand( 1 ), x.a ); break;
          case Instruction::Trunc: x.op = I_TRUNC; ops( I.getOperand( 0 ), x.a ); break;
          case Instruction::ZExt: x.op = I_ZEXT; ops( I.getOperand( 0 ), x.a ); break;
          case Instruction::SExt: x.op = I_SEXT; ops( I.getOperand( 0 ), x.a ); break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: x.op = I_ZEXT; ops( I.getOperand( 0 ), x.a ); break;
          case Instruction::BitCast: case Instruction::AddrSpaceCast: x.op = I_COPY; ops( I.getOperand( 0 ), x.a ); break;
          case Instruction::FPToSI: x.op = I_FPTOSI; ops( I.getOperand( 0 ), x.a ); break;
          case Instruction::FPToUI: x.op = I_FPTOUI; ops( I.getOperand( 0 ), x.a ); break;
          case Instruction::SIToFP: x.op = I_SITOFP; ops( I.getOperand( 0 ), x.a ); break;
          case Instruction::UIToFP: x.op = I_UITOFP; ops( I.getOperand( 0 ), x.a ); break;
          case Instruction::FPExt: case Instruction::FPTrunc: x.op = I_FPCVT; ops( I.getOperand( 0 ), x.a ); break;
          case Instruction::GetElementPtr:
          {
            auto & G = cast< GetElementPtrInst >( I );
            if( G.getType()->isVectorTy() ) break;
            x.op = I_GEP; ops( G.getPointerOperand(), x.a );
            for( auto gi = gep_type_begin( G ), ge = gep_type_end( G ); gi != ge; ++gi )
            {
              Value * idx = gi.getOperand();
              if( StructType * st = gi.getStructTypeOrNull() ) { x.imm += (i64)(u64)DL->getStructLayout( st )->getElementOffset( cast< ConstantInt >( idx )->getZExtValue() ); continue; }
              i64 sz = (i64)(u64)DL->getTypeAllocSize( gi.getIndexedType() );
              if( auto * ci = dyn_cast< ConstantInt >( idx ) ) { x.imm += ci->getSExtValue() * sz; continue; }
              ops( idx, x.a ); x.scales.push_back( sz );
            }
            break;
          }
          case Instruction::Load: x.op = I_LOAD; ops( I.getOperand( 0 ), x.a ); leavesOf( I.getType(), 0, x.leaves ); x.imm = cast< LoadInst >( I ).isAtomic(); break;
          case Instruction::Store: x.op = I_STORE; ops( I.getOperand( 1 ), x.a ); ops( I.getOperand( 0 ), x.a ); leavesOf( I.getOperand( 0 )->getType(), 0, x.leaves ); x.imm = cast< StoreInst >( I ).isAtomic(); break;
          case Instruction::Alloca:
          {
            auto & A = cast< AllocaInst >( I ); x.op = I_ALLOCA; x.imm = (i64)(u64)DL->getTypeAllocSize( A.getAllocatedType() ); ops( A.getArraySize(), x.a ); break;
          }
          case Instruction::Br:
          {
            auto & B2 = cast< BranchInst >( I );
            if( B2.isUnconditional() ) { x.op = I_BR; x.succ = { bbId[ B2.getSuccessor( 0 ) ] }; }
            else { x.op = I_CONDBR; ops( B2.getCondition(), x.a ); x.succ = { bbId[ B2.getSuccessor( 0 ) ], bbId[ B2.getSuccessor( 1 ) ] }; }
            break;
          }
          case Instruction::Switch:
          {
            auto & sw = cast< SwitchInst >( I ); x.op = I_SWITCH; ops( sw.getCondition(), x.a ); x.succ.push_back( bbId[ sw.getDefaultDest() ] );
            for( auto & c : sw.cases() ) { x.cases.push_back( c.getCaseValue()->getZExtValue() ); x.succ.push_back( bbId[ c.getCaseSuccessor() ] ); }
            break;
          }
          case Instruction::Select:
            if( I.getOperand( 0 )->getType()->isVectorTy() ) break;
            x.op = I_SELECT; ops( I.getOperand( 0 ), x.a ); ops( I.getOperand( 1 ), x.a ); ops( I.getOperand( 2 ), x.a ); leavesOf( I.getType(), 0, x.leaves ); break;
          case Instruction::Ret: x.op = I_RET; if( I.getNumOperands() ) ops( I.getOperand( 0 ), x.a ); break;
          case Instruction::Unreachable: x.op = I_UNREACHABLE; break;
          case Instruction::Freeze: x.op = I_FREEZE; ops( I.getOperand( 0 ), x.a ); break;
          case Instruction::Fence: x.op = I_FENCE; break;
          case Instruction::ExtractValue:
          {
            auto & ev = cast< ExtractValueInst >( I ); std::vector< Opd > o; ops( ev.getAggregateOperand(), o ); u32 k = leafIndex( ev.getAggregateOperand()->getType(), ev.getIndices() );
            x.op = I_COPY; for( u32 i = 0; i < x.n; ++i ) x.a.push_back( o[ k + i ] ); break;
          }
          case Instruction::InsertValue:
          {
            auto & iv = cast< InsertValueInst >( I ); ops( iv.getAggregateOperand(), x.a ); std::vector< Opd > o; ops( iv.getInsertedValueOperand(), o );
            u32 k = leafIndex( iv.getType(), iv.getIndices() ); for( u32 i = 0; i < o.size(); ++i ) x.a[ k + i ] = o[ i ]; x.op = I_COPY; break;
          }
          case Instruction::ExtractElement:
          {
            std::vector< Opd > o; ops( I.getOperand( 0 ), o ); auto * ci = dyn_cast< ConstantInt >( I.getOperand( 1 ) ); if( !ci ) break;
            x.op = I_COPY; x.a.push_back( o[ ci->getZExtValue() ] ); break;
          }
          case Instruction::InsertElement:
          {
            auto * ci = dyn_cast< ConstantInt >( I.getOperand( 2 ) ); if( !ci ) break;
            ops( I.getOperand( 0 ), x.a ); std::vector< Opd > o; ops( I.getOperand( 1 ), o ); x.a[ ci->getZExtValue() ] = o[ 0 ]; x.op = I_COPY; break;
          }
          case Instruction::ShuffleVector:
          {
            auto & sv = cast< ShuffleVectorInst >( I ); std::vector< Opd > o; ops( I.getOperand( 0 ), o ); ops( I.getOperand( 1 ), o );
            for( int m : sv.getShuffleMask() ) x.a.push_back( m < 0 ? Opd{ -1, Val::undef( 64 ) } : o[ m ] );
            x.op = I_COPY; break;
          }
          case Instruction::AtomicRMW: x.op = I_ATOMICRMW; x.sub = (u8)cast< AtomicRMWInst >( I ).getOperation(); ops( I.getOperand( 0 ), x.a ); ops( I.getOperand( 1 ), x.a ); break;
          case Instruction::AtomicCmpXchg: x.op = I_CMPXCHG; ops( I.getOperand( 0 ), x.a ); ops( I.getOperand( 1 ), x.a ); ops( I.getOperand( 2 ), x.a ); leavesOf( I.getOperand( 1 )->getType(), 0, x.leaves ); break;
          case Instruction::Call: case Instruction::Invoke:
          {
            auto & cb = cast< CallBase >( I ); x.op = I_CALL;
            const Value * cv = cb.getCalledOperand()->stripPointerCasts();
            if( auto * ga = dyn_cast< GlobalAlias >( cv ) ) cv = ga->getAliaseeObject();
            x.callee = dyn_cast< Function >( cv );
            if( isa< InlineAsm >( cv ) ) { x.op = cb.getType()->isVoidTy() ? I_FENCE : I_UNSUPPORTED; break; }
            if( !x.callee ) ops( cb.getCalledOperand(), x.a ); else x.a.push_back( { -1, Val::conc( 0, 64 ) } );
            for( unsigned i = 0; i < cb.arg_size(); ++i )
            {
              if( cb.getArgOperand( i )->getType()->isMetadataTy() ) { x.argLeaves.push_back( 0 ); x.byval.push_back( 0 ); continue; }
              size_t b0 = x.a.size(); ops( cb.getArgOperand( i ), x.a ); x.argLeaves.push_back( (u32)( x.a.size() - b0 ) );
              x.byval.push_back( cb.isByValArgument( i ) ? (u64)DL->getTypeAllocSize( cb.getParamByValType( i ) ) : 0 );
            }
            if( auto * iv = dyn_cast< InvokeInst >( &I ) ) x.succ = { bbId[ iv->getNormalDest() ] };
            break;
          }
          default: break;
        }
        b.ins.push_back( x );
      }
    }
    f.compiled = true;
  }
};

static Fn * getFn( const Function * F )
{
  Fn *& f = fnOf[ F ];
  if( !f ) { f = new Fn; f->F = F; f->name = F->getName().str(); }
  if( !f->compiled ) { Compiler c( *f ); c.run(); }
  return f;
}

#include "exec.hpp"
