// Driver of the troubled cell detection and the extrema it works on.
// usage: dmp <seed> <n>
#include <algorithm>
#include <cstring>
#include "common.h"
#include "constants.hpp"
#include "sc/Detections.hpp"
#include "sc/Kernels.hpp"
typedef std::vector< std::vector< long > > VV;
static const double U = 1E-5; static const long BIG = 1500000;
static long un( double v ) { return v > BIG*U ? BIG : v < -BIG*U ? -BIG : fix( v, 1E5 ); }

template< typename R, t_entityType EL, int Q, int CR > static void dmp( Rng & r ) {
  static const int NF = C_ENT[EL].N_FACES; int nEl = r.range( 1, 12 ); typedef R T[2][Q][CR];
  std::vector< R > buf( nEl*2*Q*CR ), vcur( 2*Q*CR ), vcan( 2*Q*CR ); T * ad = (T *) buf.data(); T & cur = *(T *) vcur.data(); T & can = *(T *) vcan.data();
  bool ve = r.coin(); std::vector< size_t > nb; std::vector< uint32_t > nb32; int style = r.range( 0, 3 );
  if( ve ) { int n = r.range( 0, 10 ); for( int i = 0; i < n; i++ ) nb.push_back( r.below( nEl ) ); }
  else for( int f = 0; f < NF; f++ ) nb.push_back( r.coin( 1, 4 ) ? std::numeric_limits< size_t >::max() : r.below( nEl ) );
  for( auto x : nb ) nb32.push_back( x == std::numeric_limits< size_t >::max() ? std::numeric_limits< uint32_t >::max() : x );
  // scale of the values: constant, within the absolute tolerance, or large
  for( int q = 0; q < Q; q++ ) for( int l = 0; l < CR; l++ ) {
    long w = style == 0 ? 0 : style == 1 ? r.range( 0, 20 ) : style == 2 ? r.range( 0, 30000 ) : r.range( 0, 300000 ), o = r.range( -200000, 200000 );
    auto two = [&]( R * a, R * b ) { long x = o+r.range( -w, w ), y = o+r.range( -w, w ); *a = std::min( x, y )*U; *b = std::max( x, y )*U; };
    two( &cur[0][q][l], &cur[1][q][l] ); for( int e = 0; e < nEl; e++ ) { two( &ad[e][0][q][l], &ad[e][1][q][l] ); }
  }
  // elements which are not neighbours hold extremes
  for( int e = 0; e < nEl; e++ ) { bool is = false; for( auto x : nb ) is |= x == (size_t) e; if( !is ) for( int q = 0; q < Q; q++ ) for( int l = 0; l < CR; l++ ) { ad[e][0][q][l] = -12; ad[e][1][q][l] = 12; } }
  std::vector< int > bad( CR ); for( auto & b : bad ) b = r.coin( 1, 3 ) ? r.below( Q ) : -1;   // quantity which leaves the range
  for( int q = 0; q < Q; q++ ) for( int l = 0; l < CR; l++ ) {
    long lo = un( cur[0][q][l] ), hi = un( cur[1][q][l] ); for( auto x : nb ) if( x < (size_t) nEl ) { lo = std::min( lo, un( ad[x][0][q][l] ) ); hi = std::max( hi, un( ad[x][1][q][l] ) ); }
    long d = std::max( 10000l, hi-lo )/1000, a, b;      // tolerance in units
    auto in = [&]( long k ) { return k == 0 ? lo-d+1 : k == 1 ? hi+d-1 : k == 2 ? lo : k == 3 ? hi : r.range( lo, hi ); };
    a = in( r.below( 6 ) ); b = in( r.below( 6 ) ); if( a > b ) std::swap( a, b );
    if( bad[l] == q || ( bad[l] >= 0 && r.coin( 1, 8 ) ) ) { long far = r.coin() ? 2 : r.range( 2, 5000 ); if( r.coin() ) a = lo-d-far; else b = hi+d+far; }
    can[0][q][l] = a*U; can[1][q][l] = b*U; if( bad[l] == q && r.coin( 1, 6 ) ) { if( a < lo-d ) can[0][q][l] = -std::numeric_limits< R >::infinity(); else can[1][q][l] = std::numeric_limits< R >::infinity(); }
  }
  // the other fused runs may hold anything
  int junk = CR > 1 && r.coin( 1, 4 ) ? (int) r.below( CR ) : -1; if( junk >= 0 ) { R z = r.coin() ? std::numeric_limits< R >::quiet_NaN() : std::numeric_limits< R >::infinity(); for( int q = 0; q < Q; q++ ) { cur[0][q][junk] = z; can[1][q][junk] = -z; for( int e = 0; e < nEl; e++ ) ad[e][r.below( 2 )][q][junk] = z; } }
  std::vector< R > k0 = buf, k1 = vcur, k2 = vcan; bool adm[CR]; for( auto & a : adm ) a = r.coin(); bool w32 = r.coin(); typedef edge::sc::Detections< EL, Q, CR > D;
  if( ve ) { if( w32 ) D::dmpVe( cur, ad, can, (unsigned short) nb.size(), nb32.data(), adm ); else D::dmpVe( cur, ad, can, (unsigned short) nb.size(), nb.data(), adm ); }
  else { if( w32 ) D::dmpFa( cur, ad, can, nb32.data(), adm ); else D::dmpFa( cur, ad, can, nb.data(), adm ); }
  bool kept = !memcmp( k0.data(), buf.data(), sizeof( R )*buf.size() ) && !memcmp( k1.data(), vcur.data(), sizeof( R )*vcur.size() ) && !memcmp( k2.data(), vcan.data(), sizeof( R )*vcan.size() );
  for( int l = 0; l < CR; l++ ) if( l != junk ) {
    VV rg, ns, cn; for( int q = 0; q < Q; q++ ) { rg.push_back( { un( cur[0][q][l] ), un( cur[1][q][l] ) } ); cn.push_back( { un( can[0][q][l] ), un( can[1][q][l] ) } ); ns.emplace_back(); for( auto x : nb ) if( x < (size_t) nEl ) { ns.back().push_back( un( ad[x][0][q][l] ) ); ns.back().push_back( un( ad[x][1][q][l] ) ); } }
    Rec().s( "k", "dmp" ).n( "dbl", sizeof( R ) == 8 ).n( "ve", ve ).n( "lane", l ).n( "inf", junk ).n( "kept", kept ).aa( "cur", rg ).aa( "nb", ns ).aa( "can", cn ).n( "adm", adm[l] ).put();
  }
}
// extrema of sub-cell solutions, and their selective replacement
struct MM { std::vector< std::vector< void (*)( double const *, double const *, double * ) > > m_kernels; };
template< t_entityType EL, int O, int Q, int CR > static void ext( Rng & r ) {
  static const int NS = CE_N_SUB_CELLS( EL, O ), NM = CE_N_ELEMENT_MODES( EL, O ); typedef double T[Q][NS][CR];
  std::vector< double > b( Q*NS*CR ); for( auto & x : b ) x = r.range( -400000, 400000 )*U; double mn[Q][CR], mx[Q][CR]; if( r.coin( 1, 3 ) ) for( auto & x : b ) x = -std::abs( x )-1; else if( r.coin( 1, 3 ) ) for( auto & x : b ) x = std::abs( x )+1;
  (void) NM; edge::sc::Kernels< EL, O, Q, CR >::scExtrema( *(T *) b.data(), mn, mx );
  for( int l = 0; l < CR; l++ ) { VV v; std::vector< long > a, c; for( int q = 0; q < Q; q++ ) { v.emplace_back(); for( int s = 0; s < NS; s++ ) v.back().push_back( un( b[( q*NS+s )*CR+l] ) ); a.push_back( un( mn[q][l] ) ); c.push_back( un( mx[q][l] ) ); }
    Rec().s( "k", "ext" ).aa( "v", v ).a( "mn", a ).a( "mx", c ).put(); }
}
int main( int, char ** argv ) {
  Rng r( atol( argv[1] ) ); int n = atoi( argv[2] );
  for( int i = 0; i < n; i++ ) {
    dmp< double, TRIA3, 5, 1 >( r ); dmp< double, TRIA3, 5, 4 >( r ); dmp< float, TET4, 9, 8 >( r ); dmp< double, TET4, 2, 3 >( r ); dmp< double, HEX8R, 9, 2 >( r ); dmp< double, QUAD4R, 1, 16 >( r ); dmp< float, LINE, 1, 4 >( r );
    if( i % 8 == 0 ) { ext< TRIA3, 2, 5, 4 >( r ); ext< TET4, 2, 9, 2 >( r ); ext< QUAD4R, 3, 1, 3 >( r ); }
  }
  return 0;
}
