// Driver of SparseEntities, sc::ibnd::Init and EntityLayout. The three bits of the records sit at random positions of the 64-bit types.
#include "common.h"
#include "constants.hpp"
#include "data/SparseEntities.hpp"
#include "data/EntityLayout.h"
#include "sc/ibnd/Init.hpp"
#include "io/logging.h"
INITIALIZE_EASYLOGGINGPP
typedef edge::data::SparseEntities SE;
static const int_el INV = std::numeric_limits< int_el >::max(), FILL = 777777;
struct Ch { int_spType spType; };
static int POS[3];
static int_spType up( int b ) { int_spType r = 0; for( int i = 0; i < 3; i++ ) if( b & (1 << i) ) r |= int_spType(1) << POS[i]; return r; }
static bool g_guard;
static int down( int_spType t ) { int r = 0; for( int i = 0; i < 3; i++ ) if( t & (int_spType(1) << POS[i]) ) r |= 1 << i; if( up( r ) != t ) g_guard = false; return r; }
static int64_t id( int_el v ) { return v == INV ? -1 : v > 1000000 ? 999999 : (int64_t) v; }
typedef std::vector< int > VI; typedef std::vector< int64_t > VL;
static std::vector< Ch > chars( VI const & sp ) { std::vector< Ch > c( sp.size()+1 ); for( size_t i = 0; i < sp.size(); i++ ) c[i].spType = up( sp[i] ); c.back().spType = up( 7 ); return c; }
static VI rnd( Rng & r, int n ) { VI v( n ); int st = r.below( 4 ); for( auto & x : v ) x = st == 0 ? r.below( 8 ) : st == 1 ? ( r.coin( 1, 4 ) ? r.below( 8 ) : 0 ) : st == 2 ? 7 - ( r.coin( 1, 4 ) ? r.below( 8 ) : 0 ) : 1 << r.below( 3 ); return v; }
static int ty( Rng & r ) { return r.coin( 3, 4 ) ? 1 << r.below( 3 ) : r.below( 8 ); }
struct Buf { // guarded output
  std::vector< int_el > v; size_t n; Buf( size_t i_n ) : v( i_n+4, FILL ), n( i_n ) {}
  int_el * p() { return v.data()+2; }
  VL get() { if( v[0] != FILL || v[1] != FILL || v[n+2] != FILL || v[n+3] != FILL ) g_guard = false; VL r; for( size_t i = 0; i < n; i++ ) r.push_back( id( v[i+2] ) ); return r; }
};
template< typename F > static int_el countRows( VI const & sp, F f ) { int_el c = 0; for( size_t i = 0; i < sp.size(); i++ ) c += f( i ); return c; }
static std::vector< VL > rows( VL const & f, size_t w ) { std::vector< VL > r; for( size_t i = 0; i+w <= f.size(); i += w ) r.push_back( VL( f.begin()+i, f.begin()+i+w ) ); return r; }
static std::vector< VI > randAdj( Rng & r, int n0, int n1, int w, bool dyn ) {
  std::vector< VI > a( n0 ); bool bnd = !dyn && r.coin();
  for( auto & x : a ) { int m = dyn ? r.below( 6 ) : w; for( int j = 0; j < m; j++ ) x.push_back( bnd && r.coin( 1, 4 ) ? -1 : (int) r.below( n1 ) ); }
  return a;
}
static std::vector< int_el > flat( std::vector< VI > const & a ) { std::vector< int_el > f; for( auto & x : a ) for( int y : x ) f.push_back( y < 0 ? INV : int_el( y ) ); f.push_back( 0 ); return f; }

int main( int argc, char ** argv ) {
  uint64_t seed = atoll( argv[1] ); int n0 = atoi( argv[2] ), n1 = atoi( argv[3] );
  for( int c = n0; c < n1; c++ ) {
    Rng r( seed*7777 + c ); g_guard = true;
    VI ps; for( int i = 0; i < 62; i++ ) ps.push_back( i ); r.shuffle( ps ); for( int i = 0; i < 3; i++ ) POS[i] = ps[i];
    int nA = r.coin( 1, 8 ) ? 0 : r.range( 1, 24 ), nB = r.range( 1, 24 );
    VI sp = rnd( r, nA ), sp1 = rnd( r, nB );
    int t = ty( r ), t1 = ty( r );
    auto cA = chars( sp ), cB = chars( sp1 );
    auto has = [&]( VI const & s, int i, int tt ) { return ( s[i] & tt ) == tt; };
    int_el nT = countRows( sp, [&]( int i ) { return has( sp, i, t ); } );
    Rec o; int k = c % 13;
    o.n( "case", c ).a( "sp", sp ).a( "sp1", sp1 ).n( "t", t ).n( "t1", t1 );
    if( k == 0 ) o.s( "k", "nSp" ).n( "res", id( SE::nSp( int_el( nA ), up( t ), cA.data() ) ) );
    else if( k == 1 ) {
      int nG = r.range( 1, 5 ); std::vector< std::size_t > in( nG+1, 0 ), se( nG+1, 0 );
      for( int i = 0; i < nA; i++ ) ( r.coin() ? in : se )[ r.below( nG ) ]++;
      Buf a( nG ), b( nG );
      SE::denseToSparse( nG, up( t ), cA.data(), in.data(), se.data(), (std::size_t*) a.p(), (std::size_t*) b.p() );
      in.pop_back(); se.pop_back();
      o.s( "k", "d2s" ).a( "inDe", in ).a( "seDe", se ).a( "inSp", a.get() ).a( "seSp", b.get() );
    }
    else if( k == 2 ) {
      int f = r.below( nA+1 ), left = nA-f, nS = r.range( 1, 6 ); std::vector< int_el > sz;
      for( int i = 0; i < nS; i++ ) { int q = r.below( left+1 ); if( r.coin( 1, 3 ) ) q = 0; sz.push_back( q ); left -= q; }
      Buf a( nS ), b( nS );
      SE::subRgnsSpId( int_el( f ), nS, sz.data(), up( t ), cA.data(), a.p(), b.p() );
      o.s( "k", "sub" ).n( "first", f ).a( "sizes", sz ).a( "first1", a.get() ).a( "size1", b.get() );
    }
    else if( k == 3 ) {
      SE::inherit( int_el( nA ), up( t ), up( t1 ), cA.data() );
      VI res; for( auto & x : cA ) res.push_back( down( x.spType ) ); if( res.back() != 7 ) g_guard = false; res.pop_back();
      o.s( "k", "inherit" ).a( "res", res );
    }
    else if( k == 4 || k == 5 ) {
      bool dyn = k == 5; int w = r.range( 1, 6 ); auto adj = randAdj( r, nA, nB, w, dyn ); auto f = flat( adj );
      if( !dyn ) SE::propAdj( int_el( nA ), (unsigned short) w, f.data(), up( t ), up( t1 ), cA.data(), cB.data() );
      else {
        std::vector< int_el * > p; int_el * q = f.data(); for( auto & x : adj ) { p.push_back( q ); q += x.size(); } p.push_back( q );
        SE::propAdj( int_el( nA ), p.data(), up( t ), up( t1 ), cA.data(), cB.data() );
      }
      VI res; for( auto & x : cB ) res.push_back( down( x.spType ) ); if( res.back() != 7 ) g_guard = false; res.pop_back();
      o.s( "k", dyn ? "propDyn" : "prop" ).aa( "adj", adj ).a( "res", res );
    }
    else if( k == 6 ) { Buf b( nT ); SE::linkSpDe( int_el( nA ), up( t ), cA.data(), b.p() ); o.s( "k", "spDe" ).a( "res", b.get() ); }
    else if( k == 7 ) { Buf b( nT ); SE::linkSpSp( int_el( nA ), up( t ), up( t1 ), cA.data(), b.p() ); o.s( "k", "spSp" ).a( "res", b.get() ); }
    else if( k == 8 || k == 9 ) {
      int w = r.range( 1, 6 ); auto adj = randAdj( r, nA, nB, w, false ); auto f = flat( adj );
      int_el n = k == 8 ? nT : countRows( sp, [&]( int i ) { bool h = false; for( int y : adj[i] ) h |= y >= 0 && has( sp1, y, t1 ); return h; } );
      Buf b( n*w );
      if( k == 8 ) SE::linkSpAdjDst( int_el( nA ), (unsigned short) w, f.data(), up( t ), up( t1 ), cA.data(), cB.data(), b.p() );
      else         SE::linkSpAdjSst( int_el( nA ), (unsigned short) w, f.data(), up( t1 ), cB.data(), b.p() );
      o.s( "k", k == 8 ? "dst" : "sst" ).aa( "adj", adj ).aa( "res", rows( b.get(), w ) );
    }
    else if( k == 10 ) {
      auto adj = randAdj( r, nA, nB, 0, true ); auto f = flat( adj );
      std::vector< int_el * > p; int_el * q = f.data(); for( auto & x : adj ) { p.push_back( q ); q += x.size(); } p.push_back( q );
      int_el nRaw = FILL, nPtr = FILL;
      SE::nLinkSpAdjDst( int_el( nA ), p.data(), up( t ), up( t1 ), cA.data(), cB.data(), nRaw, nPtr );
      int_el raw = 0; for( int i = 0; i < nA; i++ ) if( has( sp, i, t ) ) for( int y : adj[i] ) raw += has( sp1, y, t1 );
      Buf b( raw ); std::vector< int_el * > lp( nT+3, nullptr );
      SE::linkSpAdjDst( int_el( nA ), p.data(), up( t ), up( t1 ), cA.data(), cB.data(), b.p(), lp.data()+1 );
      if( lp[0] != nullptr || lp[nT+2] != nullptr ) g_guard = false;
      VL v = b.get(); std::vector< VL > res;
      for( int_el i = 0; i < nT; i++ ) {
        int64_t x = lp[i+1]-b.p(), y = lp[i+2]-b.p(); VL w1;
        if( x < 0 || y < x || y > (int64_t) raw ) w1.push_back( -5 ); else for( int64_t j = x; j < y; j++ ) w1.push_back( v[j] );
        res.push_back( w1 );
      }
      o.s( "k", "dyn" ).aa( "adj", adj ).aa( "res", res ).n( "nRaw", id( nRaw ) ).n( "nPtr", id( nPtr ) );
    }
    else if( k == 11 ) {
      // internal boundary: sp are the faces', sp1 the elements' types
      auto faEl = randAdj( r, nA, nB, 2, false ); std::vector< VI > elFa( nB );
      if( nA == 0 ) { sp.push_back( 0 ); cA = chars( sp ); faEl.push_back( VI( { 0, -1 } ) ); nA = 1; nT = has( sp, 0, t ); o = Rec(); o.n( "case", c ).a( "sp", sp ).a( "sp1", sp1 ).n( "t", t ).n( "t1", t1 ); }
      for( auto & x : elFa ) for( int j = 0; j < 3; j++ ) x.push_back( r.below( nA ) );
      auto ff = flat( faEl ), fe = flat( elFa );
      int_el nBe = countRows( sp1, [&]( int i ) { bool h = false; for( int y : elFa[i] ) h |= has( sp, y, t ); return h; } ), nEl = countRows( sp1, [&]( int i ) { return has( sp1, i, t ); } );
      Buf a( nT*2 ), b( nT*2 ), d( nBe*3 ), e( nEl );
      edge::sc::ibnd::t_connect< int_el, TRIA3 > cn; cn.bfBe = (int_el(*)[2]) a.p(); cn.bfLe = (int_el(*)[2]) b.p(); cn.beBf = (int_el(*)[3]) d.p(); cn.beEl = e.p();
      edge::sc::ibnd::Init< TRIA3 >::connect( int_el( nA ), int_el( nB ), up( t ), up( t1 ), (int_el(*)[2]) ff.data(), (int_el const (*)[3]) fe.data(), cA.data(), cB.data(), cn );
      o.s( "k", "ibnd" ).aa( "faEl", faEl ).aa( "elFa", elFa ).aa( "bfBe", rows( a.get(), 2 ) ).aa( "bfLe", rows( b.get(), 2 ) ).aa( "beBf", rows( d.get(), 3 ) ).a( "beEl", e.get() );
    }
    else {
      int nG = r.range( 1, 5 ); t_enLayout la; la.nEnts = FILL; la.timeGroups.resize( nG );
      VL inner, first, own; std::vector< VL > send, sfirst;
      for( auto & g : la.timeGroups ) {
        g.nEntsOwn = g.nEntsNotOwn = g.inner.first = FILL; g.inner.size = r.below( 9 ); inner.push_back( g.inner.size );
        int nS = r.below( 4 ); g.send.resize( nS ); g.receive.resize( nS ); VL s;
        for( int j = 0; j < nS; j++ ) { g.send[j].first = g.receive[j].first = FILL; g.send[j].size = r.below( 6 ); g.receive[j].size = 0; s.push_back( g.send[j].size ); }
        send.push_back( s );
      }
      edge::data::EntityLayout::sizesToLayout( la );
      for( auto & g : la.timeGroups ) { first.push_back( id( g.inner.first ) ); own.push_back( id( g.nEntsOwn ) ); VL s; for( auto & x : g.send ) s.push_back( id( x.first ) ); sfirst.push_back( s ); if( g.nEntsNotOwn != 0 ) g_guard = false; }
      o.s( "k", "lay" ).a( "inner", inner ).aa( "send", send ).a( "first", first ).aa( "sfirst", sfirst ).a( "own", own ).n( "n", id( la.nEnts ) );
    }
    o.n( "guard", g_guard ? 1 : 0 ).put();
  }
  return 0;
}
