// Runs edge_v's Communication on generated adjacencies; usage: comm <seed> <n>
#include "common.h"
#include "mesh/Communication.h"
#include "io/logging.h"
#include <algorithm>
#include <numeric>
INITIALIZE_EASYLOGGINGPP
using namespace edge_v;
static const t_idx MX = std::numeric_limits< t_idx >::max();
int main( int argc, char ** argv ) {
  if( argc < 3 ) return 3;
  el::Configurations c; c.setToDefault(); c.setGlobally( el::ConfigurationType::ToStandardOutput, "false" ); c.setGlobally( el::ConfigurationType::ToFile, "false" ); el::Loggers::reconfigureAllLoggers( c );
  Rng r( atol( argv[1] ) );
  int n = atoi( argv[2] ), done = 0;
  while( done < n ) {
    t_entityType ty = (t_entityType[]){ TRIA3, QUAD4R, TET4, HEX8R }[r.below(4)];
    int nF = CE_N_FAS( ty );
    int N = 2 + r.below( 23 );
    // random adjacency: structured grid or random graph, at most one face between two elements
    std::vector< std::vector< int > > nb( N );
    auto lnk = [&]( int a, int b ) { if( a == b || (int) nb[a].size() >= nF || (int) nb[b].size() >= nF ) return; if( std::count( nb[a].begin(), nb[a].end(), b ) ) return; nb[a].push_back( b ); nb[b].push_back( a ); };
    int kind = r.below( 3 ), w = 2 + r.below( 4 );
    if( kind == 0 ) { for( int e = 0; e < N; e++ ) { if( (e+1)%w && e+1 < N ) lnk( e, e+1 ); if( e+w < N ) lnk( e, e+w ); } }
    else { int k = N*nF/(2+r.below(3))+1; for( int i = 0; i < k; i++ ) lnk( r.below( N ), r.below( N ) ); if( kind == 2 ) for( int e = 0; e+1 < N; e++ ) lnk( e, e+1 ); }
    int nP = 1 + r.below( std::min( 6, N ) ), nTg = 1 + r.below( 4 );
    std::vector< int > pa( N ); std::vector< int > tg( N ); int ps = r.below( 2 ), ts = r.below( 3 );
    for( int e = 0; e < N; e++ ) {
      pa[e] = ps ? (int) r.below( nP ) : e*nP/N;
      tg[e] = ts == 0 ? (int) r.below( nTg ) : ts == 1 ? std::min( nTg-1, (e%w) ) : nTg-1-(r.coin( 1, 5 ) ? (int) r.below( nTg ) : 0);
    }
    // faces' slots
    std::vector< std::vector< int > > slot( N, std::vector< int >( nF, -1 ) );
    for( int e = 0; e < N; e++ ) { std::vector< int > s( nF ); std::iota( s.begin(), s.end(), 0 ); r.shuffle( s ); for( size_t i = 0; i < nb[e].size(); i++ ) slot[e][s[i]] = nb[e][i]; }
    auto send = [&]( int e ) { for( int x : nb[e] ) if( pa[x] != pa[e] ) return true; return false; };
    // every partition communicates (connected meshes)
    std::vector< int > has( nP, 0 ), cnt( nP, 0 ); for( int e = 0; e < N; e++ ) { cnt[pa[e]]++; if( send( e ) ) has[pa[e]] = 1; }
    bool ok = true; for( int p = 0; p < nP; p++ ) if( cnt[p] == 0 || (nP > 1 && !has[p]) ) ok = false;
    if( !ok ) continue;
    // order of the elements: partition, inner before send, time group
    std::vector< int > o( N ); std::iota( o.begin(), o.end(), 0 ); r.shuffle( o );
    std::stable_sort( o.begin(), o.end(), [&]( int a, int b ) { return std::make_tuple( pa[a], send( a ), tg[a] ) < std::make_tuple( pa[b], send( b ), tg[b] ); } );
    std::vector< int > inv( N ); for( int i = 0; i < N; i++ ) inv[o[i]] = i;
    std::vector< t_idx > adj( N*nF, MX ), nPaEls( nP ); std::vector< unsigned short > elTg( N ); std::vector< int > elPa( N ); std::vector< std::vector< int > > jadj( N, std::vector< int >( nF, -1 ) );
    for( int i = 0; i < N; i++ ) { elTg[i] = tg[o[i]]; elPa[i] = pa[o[i]]; for( int f = 0; f < nF; f++ ) if( slot[o[i]][f] >= 0 ) { adj[i*nF+f] = inv[slot[o[i]][f]]; jadj[i][f] = inv[slot[o[i]][f]]; } }
    for( int p = 0; p < nP; p++ ) nPaEls[p] = cnt[p];
    mesh::Communication m( nTg, ty, N, adj.data(), nP, nPaEls.data(), elTg.data() );
    Rec rec; rec.n( "nP", nP ).n( "nTg", nTg ).aa( "adj", jadj ).a( "pa", elPa ).a( "tg", elTg ).a( "nPaEls", nPaEls );
    std::vector< std::vector< long > > st, in, se; std::vector< long > nSr; std::string seq = "[";
    for( int p = 0; p < nP; p++ ) {
      t_idx const * s = m.getStruct( p ); st.push_back( std::vector< long >() ); long k = std::min< t_idx >( s[0], N*nF ); st.back().push_back( k ); for( long i = 0; i < 4*k; i++ ) st.back().push_back( std::min< t_idx >( s[1+i], 1000000 ) );
      in.push_back( std::vector< long >( m.nGroupElsIn( p ), m.nGroupElsIn( p )+nTg ) ); se.push_back( std::vector< long >( m.nGroupElsSe( p ), m.nGroupElsSe( p )+nTg ) );
      long ns = m.nSeRe( p ); nSr.push_back( ns ); std::vector< std::vector< long > > q;
      if( ns > N*nF ) return 3;
      for( long i = 0; i < ns; i++ ) q.push_back( { (long) std::min< t_idx >( m.getSendEl( p )[i], 1000000 ), m.getSendFa( p )[i], (long) std::min< t_idx >( m.getRecvEl( p )[i], 1000000 ), m.getRecvFa( p )[i] } );
      if( p ) seq += ","; seq += Rec::arr2( q );
    }
    rec.aa( "st", st ).aa( "nIn", in ).aa( "nSe", se ).a( "nSeRe", nSr ).raw( "seq", seq + "]" ).put();
    done++;
  }
  return 0;
}
