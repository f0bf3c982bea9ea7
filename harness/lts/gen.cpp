// Generator of test cases: random face graphs with rate-2 time groups, split into partitions the way EDGE-V does.
#include "case.h"
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <map>
#include <tuple>
#include <limits>
namespace vf {
Case *g_case = nullptr;
namespace {
struct Rng { uint64_t x; uint64_t operator()() { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; return x*2685821657736338717ULL >> 20; } int in( int a, int b ) { return a + (int)( (*this)() % (uint64_t)( b-a+1 ) ); } bool p( int pct ) { return in( 0, 99 ) < pct; } };
template< typename T > void shuffle( std::vector< T > & v, Rng & r ) { for( std::size_t i = v.size(); i > 1; i-- ) std::swap( v[i-1], v[ r()%i ] ); }
}
void generate( Case & c, unsigned long seed, int id, bool mpi, int nFas, int nVes, int nDim, double const *ref, int stress, double vp ) {
  Rng r; r.x = seed*0x9E3779B97F4A7C15ULL + (uint64_t) id*0xD1B54A32D192ED03ULL + 1; for( int i = 0; i < 8; i++ ) r();
  c = Case();
  c.id = id; c.stress = stress; c.nFas = nFas; c.nVes = nVes; c.seed = r();
  static int const rk[] = { 2, 2, 2, 3, 3, 4 };
  c.nRanks = mpi ? rk[ r.in( 0, 5 ) ] : 1;
  c.nThreads = mpi ? r.in( 1, 4 ) : r.in( 1, 6 );
  c.sepWrks = r.in( 0, 1 );
  c.nTgs = r.p( 12 ) ? 1 : r.p( 45 ) ? 2 : r.p( 65 ) ? 3 : 4;
  if( stress == 3 ) { c.nTgs = r.in( 3, 4 ); c.nThreads = r.in( 3, 5 ); c.nRanks = mpi ? 2 : 1; }
  c.scale = r.p( 60 ) ? 1 : r.p( 50 ) ? 0.1 : 0.0037;
  c.pSwitch = r.p( 30 ) ? 1 : r.p( 50 ) ? 3 : 12;
  c.eagerPct = r.p( 30 ) ? 0 : r.p( 40 ) ? 100 : 50;
  int nEls = std::max( c.nRanks, r.p( 15 ) ? r.in( 1, 3 ) : r.in( 3, stress ? 20 : 12 ) );
  if( stress == 3 ) nEls = r.in( 9, 18 );
  c.tg.resize( nEls ); c.rank.resize( nEls ); c.loc.resize( nEls ); c.src.assign( nEls, 0 );
  for( int e = 0; e < nEls; e++ ) { c.tg[e] = r.in( 0, c.nTgs-1 ); c.rank[e] = e < c.nRanks ? e : r.in( 0, c.nRanks-1 ); c.src[e] = r.p( 30 ); }
  c.fa.assign( nEls, std::vector< Face >( nFas ) );
  std::vector< std::pair< int, int > > open;
  for( int e = 0; e < nEls; e++ ) for( int f = 0; f < nFas; f++ ) { c.fa[e][f].kind = -1; open.push_back( std::make_pair( e, f ) ); }
  shuffle( open, r );
  int pBnd = r.in( 0, 30 );
  auto link = [&]( int e, int f, int e2, int f2 ) {
    c.fa[e][f].kind = 0; c.fa[e][f].e = e2; c.fa[e][f].f = f2; c.fa[e][f].vid = r.in( 0, 2 );
    c.fa[e2][f2].kind = 0; c.fa[e2][f2].e = e; c.fa[e2][f2].f = f; c.fa[e2][f2].vid = r.in( 0, 2 );
  };
  auto find = [&]( int e, int f, bool cross ) {
    for( auto &o: open ) if( c.fa[o.first][o.second].kind < 0 && o.first != e && std::abs( c.tg[o.first]-c.tg[e] ) <= 1 && (!cross || c.rank[o.first] != c.rank[e]) ) { link( e, f, o.first, o.second ); return true; }
    return false;
  };
  // every rank has at least one neighbour in another one
  for( int k = 0; k < c.nRanks && c.nRanks > 1; k++ ) {
    bool has = false;
    for( int e = 0; e < nEls; e++ ) if( c.rank[e] == k ) for( auto &f: c.fa[e] ) if( f.kind == 0 && c.rank[f.e] != k ) has = true;
    for( int e = 0; e < nEls && !has; e++ ) if( c.rank[e] == k ) for( int f = 0; f < nFas && !has; f++ ) if( c.fa[e][f].kind < 0 ) has = find( e, f, true );
    if( !has ) { // make it compatible: all in one group
      for( int e = 0; e < nEls; e++ ) c.tg[e] = 0;
      for( int e = 0; e < nEls && !has; e++ ) if( c.rank[e] == k ) for( int f = 0; f < nFas && !has; f++ ) if( c.fa[e][f].kind < 0 ) has = find( e, f, true );
    }
  }
  int pCross = r.in( 0, 70 );
  for( auto &o: open ) if( c.fa[o.first][o.second].kind < 0 ) {
    if( r.p( pBnd ) ) continue;
    if( !( c.nRanks > 1 && r.p( pCross ) && find( o.first, o.second, true ) ) ) find( o.first, o.second, false );
  }
  for( auto &o: open ) if( c.fa[o.first][o.second].kind < 0 ) { Face &f = c.fa[o.first][o.second]; f.kind = r.in( 1, 2 ); f.e = f.f = f.vid = -1; }

  // times: everything is an exact multiple of a half unit
  int M = 1 << (c.nTgs-1);
  static int const ds[] = { 1, 2, 3, 4, 6 };
  c.dt = stress == 3 ? (r.p( 50 ) ? 3 : 6) : ds[ r.in( 0, 4 ) ];
  int macro = (int) c.dt * M;
  int nMac = stress == 3 ? r.in( 5, 7 ) : stress == 2 ? r.in( 6, 14 ) : r.in( 1, stress ? 5 : 3 );
  int end = nMac*macro + ( r.p( 50 ) ? 0 : M*r.in( 0, std::max( 0, (int) c.dt-1 ) ) );
  if( r.p( 10 ) ) end = M*r.in( 1, (int) c.dt );     // shorter than a single macro step
  c.endTime = end;
  c.syncInt = r.p( 35 ) ? end : M*r.in( std::max( 1, end/M/5 ), std::max( 1, end/M ) );
  { int t = 0; while( t < end ) { int d = std::min( end-t, (int) c.syncInt ); c.syncs.push_back( d ); t += d; } }
  c.relDt.resize( c.nTgs+1 );
  double rel = c.nTgs > 1 ? (r.p( 50 ) ? 1.0 : 0.5) : 1.0;
  for( int g = 0; g < c.nTgs; g++ ) c.relDt[g] = rel*(1 << g);
  c.relDt[c.nTgs] = std::numeric_limits< double >::max();

  // partitions
  std::size_t mx = std::numeric_limits< std::size_t >::max();
  std::vector< std::vector< int > > own( c.nRanks );
  bool minSet = false;
  for( int k = 0; k < c.nRanks; k++ ) {
    RankCase &q = c.ranks[k];
    q.nIn.assign( c.nTgs, 0 ); q.nSe.assign( c.nTgs, 0 );
    std::vector< std::vector< int > > in( c.nTgs ), se( c.nTgs );
    for( int e = 0; e < nEls; e++ ) if( c.rank[e] == k ) { bool s = false; for( auto &f: c.fa[e] ) if( f.kind == 0 && c.rank[f.e] != k ) s = true; (s ? se : in)[c.tg[e]].push_back( e ); }
    for( int g = 0; g < c.nTgs; g++ ) { shuffle( in[g], r ); shuffle( se[g], r ); q.nIn[g] = in[g].size(); q.nSe[g] = se[g].size(); }
    for( int g = 0; g < c.nTgs; g++ ) for( int e: in[g] ) { c.loc[e] = q.gid.size(); q.gid.push_back( e ); }
    q.nElsIn = q.gid.size();
    for( int g = 0; g < c.nTgs; g++ ) for( int e: se[g] ) { c.loc[e] = q.gid.size(); q.gid.push_back( e ); }
    q.nEls = q.gid.size(); q.nElsSe = q.nEls-q.nElsIn;
  }
  for( int k = 0; k < c.nRanks; k++ ) {
    RankCase &q = c.ranks[k];
    q.elVe.resize( q.nEls*nVes ); q.elFa.resize( q.nEls*nFas ); q.elFaEl.assign( q.nEls*nFas, mx ); q.fId.assign( q.nEls*nFas, 65535 ); q.vId.assign( q.nEls*nFas, 65535 );
    std::map< std::pair< int, int >, std::size_t > fid;
    for( std::size_t l = 0; l < q.nEls; l++ ) {
      int e = q.gid[l];
      for( int v = 0; v < nVes; v++ ) { q.elVe[l*nVes+v] = q.crds.size()/3; for( int d = 0; d < 3; d++ ) q.crds.push_back( d < nDim ? ref[d*nVes+v] + (d == 0 ? 10.0*e : 0) : 0 ); q.spVe.push_back( 0 ); }
      q.spEl.push_back( 0 ); q.vols.push_back( nDim == 2 ? 0.5 : 1.0/6 );
      double dia = 6.0*vp*c.dt*c.scale/c.relDt[0];
      int mul = minSet ? r.in( 0, 3 ) : 0; minSet = true;
      q.inDia.push_back( dia*( 1 << ( c.tg[e] + mul ) ) );
      if( c.src[e] ) q.srcs.push_back( l );
      for( int f = 0; f < nFas; f++ ) {
        Face &x = c.fa[e][f];
        bool loc = x.kind == 0 && c.rank[x.e] == k;
        if( loc && fid.count( std::make_pair( x.e, x.f ) ) ) q.elFa[l*nFas+f] = fid[ std::make_pair( x.e, x.f ) ];
        else {
          std::size_t n = q.areas.size();
          fid[ std::make_pair( e, f ) ] = n; q.elFa[l*nFas+f] = n;
          q.areas.push_back( 1 );
          double N[3] = { 1,0,0 }, T[6] = { 0,1,0, 0,0,1 };
          q.nrm.insert( q.nrm.end(), N, N+3 ); q.tan.insert( q.tan.end(), T, T+6 );
          for( int v = 0; v < (nDim == 2 ? 2 : (nFas == 4 ? 3 : 4)); v++ ) q.faVe.push_back( q.elVe[l*nVes+v] );
          q.faEl.push_back( l ); q.faEl.push_back( loc ? (std::size_t) c.loc[x.e] : mx );
          q.spFa.push_back( x.kind == 1 ? 105 : x.kind == 2 ? 101 : 0 );
        }
        if( loc ) { q.elFaEl[l*nFas+f] = c.loc[x.e]; q.fId[l*nFas+f] = x.f; q.vId[l*nFas+f] = x.vid; }
      }
    }
  }
  if( !minSet ) {}
  // the smallest CFL time step has to be hit exactly: repair if group 0 is empty
  { double mn = 1e300; for( int k = 0; k < c.nRanks; k++ ) for( double d: c.ranks[k].inDia ) mn = std::min( mn, d ); double f = 6.0*vp*c.dt*c.scale/c.relDt[0]; if( mn != f ) { for( int k = 0; k < c.nRanks; k++ ) { for( double &d: c.ranks[k].inDia ) if( d == mn ) { d = f; mn = -1; break; } if( mn < 0 ) break; } } }
  // channels: (tg, rank, tg of the adjacent) -> faces in the sender's order
  std::map< std::tuple< int,int,int,int >, std::vector< std::pair< int,int > > > ch; // (sender rank, tg, receiver rank, tg) -> sender's (e,f)
  for( int e = 0; e < nEls; e++ ) for( int f = 0; f < nFas; f++ ) { Face &x = c.fa[e][f]; if( x.kind == 0 && c.rank[x.e] != c.rank[e] ) ch[ std::make_tuple( c.rank[e], c.tg[e], c.rank[x.e], c.tg[x.e] ) ].push_back( std::make_pair( e, f ) ); }
  for( auto &k: ch ) shuffle( k.second, r );
  for( int k = 0; k < c.nRanks && c.nRanks > 1; k++ ) {
    RankCase &q = c.ranks[k];
    q.comm.push_back( 0 );
    for( int g = 0; g < c.nTgs; g++ ) for( int k2 = 0; k2 < c.nRanks; k2++ ) for( int g2 = 0; g2 < c.nTgs; g2++ ) {
      auto s = ch.find( std::make_tuple( k, g, k2, g2 ) ), t = ch.find( std::make_tuple( k2, g2, k, g ) );
      if( s == ch.end() ) continue;
      q.comm[0]++; q.comm.push_back( g ); q.comm.push_back( k2 ); q.comm.push_back( g2 ); q.comm.push_back( s->second.size() );
      for( auto &x: s->second ) { q.sendEl.push_back( c.loc[x.first] ); q.sendFa.push_back( x.second ); q.sendVe.push_back( c.fa[x.first][x.second].vid ); q.sendFi.push_back( c.fa[x.first][x.second].f ); }
      for( auto &x: t->second ) { Face &y = c.fa[x.first][x.second]; q.recvEl.push_back( c.loc[y.e] ); q.recvFa.push_back( y.f ); }
    }
  }
  // receivers
  int nRe = r.p( 40 ) ? 0 : r.in( 1, 6 );
  if( stress >= 2 ) nRe = r.in( 1, 6 ) + (stress == 3 ? 2 : 0);
  for( int i = 0; i < nRe; i++ ) {
    Recv x; x.e = r.in( 0, nEls-1 ); if( stress == 3 ) for( int t = 0; t < 6 && c.tg[x.e] < 2; t++ ) x.e = r.in( 0, nEls-1 ); char b[32]; snprintf( b, sizeof(b), "r%d", i ); x.name = b;
    double q[3] = { 0,0,0 }; double ws[8], s = 0; for( int v = 0; v < nVes; v++ ) { ws[v] = r.in( 1, 5 ); s += ws[v]; }
    for( int v = 0; v < nVes; v++ ) for( int d = 0; d < nDim; d++ ) q[d] += ws[v]/s*( ref[d*nVes+v] + (d == 0 ? 10.0*x.e : 0) );
    x.x = q[0]; x.y = q[1]; x.z = q[2];
    c.recvs.push_back( x );
  }
  if( stress == 3 ) c.freq = macro/48.0;   // close to the capacity of the receivers' buffers
  else if( stress == 2 ) { static double const fr[] = { 0.125, 0.25, 0.5, 1, 3, 5.5 }; c.freq = fr[ r.in( 0, 5 ) ]; while( macro / c.freq > 45 ) c.freq *= 2; }
  else { static double const fr[] = { 0.5, 1, 1.5, 2, 3, 7.5 }; c.freq = fr[ r.in( 0, 5 ) ]; }
}
void writeXml( Case const & c, std::string const & xml, std::string const & dir, int nCr, int nRms ) {
  FILE *f = fopen( xml.c_str(), "w" );
  fprintf( f, "<edge><cfr><mesh><in><base>none</base><extension>.msh</extension></in></mesh><velocity_model><domain><rho>1</rho><lambda>2</lambda><mu>1</mu>" );
  if( nRms > 0 ) fprintf( f, "<qp>50</qp><qs>30</qs>" );
  fprintf( f, "</domain></velocity_model><setups>" );
  if( nRms > 0 ) fprintf( f, "<attenuation><central_frequency>1</central_frequency><frequency_ratio>100</frequency_ratio></attenuation>" );
  fprintf( f, "<point_sources>" ); for( int i = 0; i < nCr; i++ ) fprintf( f, "<file>none</file>" );
  fprintf( f, "</point_sources><end_time>%.17g</end_time></setups><output>", c.endTime*c.scale );
  if( c.recvs.size() > 0 ) {
    fprintf( f, "<receivers><path_to_dir>%s</path_to_dir><freq>%.17g</freq>", dir.c_str(), c.freq*c.scale );
    for( auto &x: c.recvs ) fprintf( f, "<receiver><name>%s</name><coords><x>%.17g</x><y>%.17g</y><z>%.17g</z></coords></receiver>", x.name.c_str(), x.x, x.y, x.z );
    fprintf( f, "</receivers>" );
  }
  fprintf( f, "</output></cfr><synchronization><max_int>%.17g</max_int></synchronization><parallelization><separate_workers>%d</separate_workers></parallelization></edge>\n", c.syncInt*c.scale, c.sepWrks );
  fclose( f );
}
}
