// Driver of edge_v::time::Groups and edge_v::time::Cfl: random and systematic cases -> records.
#include "common.h"
#include "time/Groups.h"
#include "time/Cfl.h"
#include "io/logging.h"
INITIALIZE_EASYLOGGINGPP
using edge_v::t_idx;
static const t_idx NONE = std::numeric_limits< t_idx >::max();

struct Vel : edge_v::models::Model {
  std::vector< double > c;
  void init( t_idx, double const (*)[3] ) {}
  void free() {}
  double getMinSpeed( t_idx p ) const { return c[p]; }
  double getMaxSpeed( t_idx p ) const { return c[p]; }
};

static void groupsCase( Rng & r, int i_kind ) {
  static const edge_v::t_entityType tys[5] = { edge_v::LINE, edge_v::TRIA3, edge_v::QUAD4R, edge_v::TET4, edge_v::HEX8R };
  edge_v::t_entityType ty = tys[ r.below(5) ];
  unsigned nF = edge_v::CE_N_FAS( ty );
  unsigned nEl = r.range( 1, i_kind == 0 ? 6 : 40 );
  // adjacency: random symmetric multigraph bounded by the number of faces; i_kind 2: chain in random numbering
  std::vector< t_idx > adj( nEl*nF, NONE );
  auto freeFace = [&]( unsigned e ) { std::vector< unsigned > f; for( unsigned i = 0; i < nF; i++ ) if( adj[e*nF+i] == NONE ) f.push_back( i ); return f.empty() ? (int) -1 : (int) r.pick( f ); };
  auto conn = [&]( unsigned a, unsigned b ) { if( a == b ) return; int fa = freeFace( a ); int fb = freeFace( b ); if( fa < 0 || fb < 0 ) return; adj[a*nF+fa] = b; adj[b*nF+fb] = a; };
  if( i_kind == 2 ) {
    std::vector< unsigned > p( nEl ); for( unsigned i = 0; i < nEl; i++ ) p[i] = i; if( r.coin() ) r.shuffle( p );
    for( unsigned i = 0; i+1 < nEl; i++ ) conn( p[i], p[i+1] );
  }
  unsigned nC = r.below( nEl*nF + 1 );
  if( i_kind != 2 ) for( unsigned i = 0; i < nC; i++ ) conn( r.below(nEl), r.below(nEl) );
  // rates and fundamental step (dyadic, exact in units of 1/1024)
  unsigned nRates = r.range( 0, 6 );
  std::vector< int64_t > rates4( nRates );
  unsigned odd = 0;
  for( auto & x : rates4 ) { x = r.coin(2,3) || odd > 2 ? 8 : r.range( 5, 7 ); if( x != 8 ) odd++; }
  int64_t fun8 = r.coin() ? 8 : r.range( 4, 8 );
  std::vector< double > rates; for( auto x : rates4 ) rates.push_back( x/4.0 );
  double fun = fun8/8.0;
  // bounds for biased time steps (1/1024)
  std::vector< int64_t > bounds; { double v = fun; bounds.push_back( fix( v, 1024 ) ); for( double x : rates ) { v *= x; bounds.push_back( fix( v, 1024 ) ); } }
  std::vector< int64_t > tsI( nEl ); std::vector< double > ts( nEl );
  unsigned style = r.below( 3 );
  for( unsigned e = 0; e < nEl; e++ ) {
    int64_t v;
    if( style == 0 ) { v = r.pick( bounds ) + r.range( -1, 1 ); }
    else if( style == 1 ) v = 1024 + (int64_t) r.below( 3*bounds.back() );
    else v = r.coin( 1, 4 ) ? 1024 : bounds.back()*2;      // steep: long propagation chains
    if( v < 1024 ) v = 1024;
    tsI[e] = v; ts[e] = v/1024.0;
  }
  tsI[ r.below(nEl) ] = 1024; for( unsigned e = 0; e < nEl; e++ ) ts[e] = tsI[e]/1024.0;

  edge_v::time::Groups g( ty, nEl, adj.data(), nRates, rates.data(), fun, ts.data() );

  std::vector< int64_t > adjI; for( t_idx a : adj ) adjI.push_back( a == NONE ? -1 : (int64_t) a );
  unsigned nG = g.nGroups();
  std::vector< int64_t > iv; bool ex = true;
  for( unsigned i = 0; i < nG && i <= nRates; i++ ) { iv.push_back( fix( g.getTsIntervals()[i], 1024 ) ); ex = ex && exact( g.getTsIntervals()[i], 1024 ); }
  std::vector< std::vector< int64_t > > rg;
  for( int q = 0; q < 4; q++ ) {
    t_idx f = r.below( nEl+1 ), n = r.below( nEl-f+1 );
    std::vector< t_idx > cnt( nG+1, 77 );
    g.nGroupEls( f, n, cnt.data() );
    std::vector< int64_t > x = { (int64_t) f, (int64_t) n }; for( unsigned i = 0; i < nG; i++ ) x.push_back( fix( cnt[i], 1 ) ); rg.push_back( x );
  }
  std::vector< int64_t > cnts; for( unsigned i = 0; i < nG; i++ ) cnts.push_back( fix( g.nGroupEls()[i], 1 ) );
  Rec().s( "k", "groups" ).n( "nF", nF ).a( "adj", adjI ).a( "rates", rates4 ).n( "fun", fun8 ).a( "ts", tsI ).n( "nG", nG )
       .a( "iv", iv ).b( "ivExact", ex ).b( "ivLastInf", g.getTsIntervals()[nG] == std::numeric_limits< double >::max() )
       .a( "tg", g.getElTg(), nEl ).a( "cnt", cnts ).aa( "ranges", rg ).n( "speedup", fix( g.getSpeedUp(), 1000 ) ).put();
}

static void cflCase( Rng & r ) {
  static const edge_v::t_entityType tys[5] = { edge_v::LINE, edge_v::TRIA3, edge_v::QUAD4R, edge_v::TET4, edge_v::HEX8R };
  edge_v::t_entityType ty = tys[ r.below(5) ];
  unsigned nV = edge_v::CE_N_VES( ty );
  unsigned nEl = r.range( 1, 20 ), nVe = nV + r.below( 20 );
  std::vector< t_idx > elVe( nEl*nV ); for( auto & v : elVe ) v = r.below( nVe );
  std::vector< int64_t > dia( nEl ); std::vector< double > diaD( nEl );
  for( unsigned e = 0; e < nEl; e++ ) { dia[e] = r.range( 1, 40 ); diaD[e] = dia[e]; }
  bool velEl = r.coin();
  Vel m; std::vector< int64_t > c;
  for( unsigned i = 0; i < (velEl ? nEl : nVe); i++ ) { c.push_back( r.range( 1, 8 ) ); m.c.push_back( c.back() ); }
  std::vector< double > crds( nVe*3 ); for( auto & x : crds ) x = r.range( 0, 100 );
  edge_v::time::Cfl cfl( ty, nVe, nEl, elVe.data(), (double (*)[3]) crds.data(), diaD.data(), velEl, m );
  std::vector< int64_t > ts; for( unsigned e = 0; e < nEl; e++ ) ts.push_back( fix( cfl.getTimeSteps()[e], 1000 ) );
  Rec().s( "k", "cfl" ).n( "nV", nV ).a( "elVe", elVe ).a( "dia", dia ).b( "velEl", velEl ).a( "c", c ).a( "ts", ts ).put();
}

int main( int argc, char ** argv ) {
  if( argc != 4 ) return 3;
  uint64_t seed = strtoull( argv[1], nullptr, 10 ); int nG = atoi( argv[2] ), nC = atoi( argv[3] );
  for( int i = 0; i < nG; i++ ) { Rng r( seed*1000003 + i ); groupsCase( r, i%3 ); }
  for( int i = 0; i < nC; i++ ) { Rng r( seed*2000003 + i + 77 ); cflCase( r ); }
  return 0;
}
