// Driver of edge::parallel::Shared and LoadBalancing: the harness plays scheduler and workers, measured times are invented.
#include "common.h"
#include "constants.hpp"
#include "parallel/Shared.h"
#include "parallel/global.h"
#include "io/logging.h"
#include <sys/time.h>
#include <omp.h>
INITIALIZE_EASYLOGGINGPP
static uint64_t g_us = 1000000;
extern "C" int gettimeofday( struct timeval *tv, void * ) throw() { tv->tv_sec = g_us/1000000; tv->tv_usec = g_us%1000000; return 0; }
using edge::parallel::g_thread;
typedef edge::parallel::Shared Sh;

struct Region { int tg, step, id, first, size, prio; std::vector< int > ty; };
enum { SETALL = 0, GET = 1, IPR = 2, FIN = 3, STAT = 4, BAL = 5, RESET = 6 };

static void numaCase( Rng & r, Sh & sh ) {
  int n = r.range( 0, 70 );
  std::vector< int > a( n+4, 77 );
#pragma omp parallel
  { sh.numaInit( std::size_t(n), a.data()+2 ); }
  Rec x; x.s( "kind", "numa" ).n( "n", n ); x.a( "a", a ); x.put();
}

static void oneCase( Rng & r ) {
  int nT = r.range( 1, 7 );
  bool sep = r.coin();
  omp_set_num_threads( nT );
  Sh sh;
  sh.init( sep );
  if( r.coin( 1, 3 ) ) numaCase( r, sh );
  std::vector< int > wrk, sch, com;
  for( int t = 0; t < nT; t++ ) { g_thread = t; wrk.push_back( sh.isWrk() ); sch.push_back( sh.isSched() ); com.push_back( sh.isComm() ); }
  g_thread = 0;
  // regions over one element array
  int nR = r.range( 1, 6 ), tot = 0;
  std::vector< Region > rg;
  std::vector< int > ids; for( int i = 0; i < 12; i++ ) ids.push_back( i ); r.shuffle( ids );
  for( int i = 0; i < nR; i++ ) {
    Region g; g.tg = r.below( 4 ); g.step = r.below( 3 ); g.id = ids[i]; g.size = r.coin( 1, 5 ) ? 0 : r.coin() ? r.range( 1, 5 ) : r.range( 1, 60 );
    g.first = r.coin( 2, 3 ) || tot == 0 ? tot : r.below( tot ); g.prio = r.range( -1, 3 ); tot = std::max( tot, g.first+g.size );
    int nTy = r.below( 3 ); for( int t = 0; t < nTy; t++ ) g.ty.push_back( 1 << r.below( 3 ) );
    rg.push_back( g );
  }
  std::vector< t_vertexChars > ch( tot+1 );
  std::vector< int > sp( tot );
  for( int i = 0; i < tot; i++ ) { ch[i].spType = sp[i] = r.below( 8 ); }
  for( auto & g : rg ) { std::vector< int_spType > ty( g.ty.begin(), g.ty.end() ); sh.regWrkRgn( g.tg, g.step, g.id, g.first, g.size, g.prio, ty.size(), ty.data(), ch.data() ); }

  std::string ev = "["; bool first = true;
  auto log = [&]( std::vector< int64_t > const & v ) { if( !first ) ev += ","; first = false; ev += Rec::arr( v ); };
  // times: style of the measured times
  int nPh = r.range( 1, 5 );
  for( int ph = 0; ph < nPh; ph++ ) {
    int style = r.below( 4 );
    sh.resetStatus( Sh::WAI ); log( { RESET } );
    std::vector< int > busy( nT, -1 );      // region id in progress
    std::vector< int > spd( nT ); for( auto & s : spd ) s = style == 0 ? 0 : style == 1 ? 1000 : style == 2 ? r.range( 1, 5 )*1000 : 1 << r.below( 24 );
    int nSteps = r.range( 20, 120 );
    bool drain = false; int idle = 0;
    for( int s = 0; ; s++ ) {
      if( s >= nSteps ) drain = true;
      if( idle > 12*nT ) { bool b = false; for( int q : busy ) if( q >= 0 ) b = true; if( !b ) break; idle = 0; }
      int a = r.below( 10 );
      if( a < 2 && !drain ) {
        Region & g = rg[ r.below( nR ) ];
        bool fin = sh.getStatusAll( Sh::FIN, g.id ); log( { STAT, g.id, 2, fin } );
        bool wai = sh.getStatusAll( Sh::WAI, g.id ); log( { STAT, g.id, 3, wai } );
        if( fin || wai ) { sh.setStatusAll( Sh::RDY, g.id ); log( { SETALL, g.id } ); }
      }
      else if( a < 3 ) { Region & g = rg[ r.below( nR ) ]; int st = r.below( 4 ); static Sh::t_status const S[4] = { Sh::RDY, Sh::IPR, Sh::FIN, Sh::WAI }; log( { STAT, g.id, st, sh.getStatusAll( S[st], g.id ) } ); }
      else {
        int t = r.below( nT ); if( !wrk[t] ) t = nT-1;
        g_thread = t;
        if( busy[t] >= 0 ) { g_us += style == 3 ? r.below( spd[t]+1 ) : spd[t]; sh.setStatusTd( Sh::FIN, busy[t] ); log( { FIN, t, busy[t] } ); busy[t] = -1; }
        else {
          unsigned short tg = 9, st = 9; unsigned int id = 99; int_el fi = 0, sz = 0; int_el spf[128]; for( auto & x : spf ) x = 0;
          bool got = sh.getWrkTd( tg, st, id, fi, sz, spf );
          std::vector< int64_t > v = { GET, t, got };
          if( got ) {
            v.push_back( tg ); v.push_back( st ); v.push_back( id ); v.push_back( fix( fi, 1 ) ); v.push_back( fix( sz, 1 ) );
            for( auto & g : rg ) if( g.id == (int) id ) for( unsigned y = 0; y < g.ty.size(); y++ ) v.push_back( fix( spf[y], 1 ) );
          }
          log( v );
          if( got ) { sh.setStatusTd( Sh::IPR, id ); log( { IPR, t, id } ); busy[t] = id; }
          else if( drain ) idle++;
          if( got ) idle = 0;
        }
        g_thread = 0;
      }
    }
    sh.balance(); log( { BAL } );
  }
  ev += "]";
  std::string R = "["; for( unsigned i = 0; i < rg.size(); i++ ) { if( i ) R += ","; R += "[" + Rec::num( rg[i].tg ) + "," + Rec::num( rg[i].step ) + "," + Rec::num( rg[i].id ) + "," + Rec::num( rg[i].first ) + "," + Rec::num( rg[i].size ) + "," + Rec::num( rg[i].prio ) + "," + Rec::arr( rg[i].ty ) + "]"; } R += "]";
  Rec x; x.s( "kind", "share" ).n( "sep", sep ).a( "wrk", wrk ).a( "sch", sch ).a( "com", com ).raw( "rg", R ).a( "sp", sp ).raw( "ev", ev ); x.put();
}
int main( int argc, char **argv ) {
  if( argc < 4 ) return 3;
  el::Configurations c; c.setToDefault(); c.setGlobally( el::ConfigurationType::Enabled, "false" ); el::Loggers::reconfigureAllLoggers( c );
  int f = atoi( argv[2] ), n = atoi( argv[3] );
  for( int i = f; i < f+n; i++ ) { Rng r( strtoull( argv[1], 0, 10 )*1000003ull + i ); oneCase( r ); }
  return 0;
}
