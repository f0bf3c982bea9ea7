// Driver of the linear slip weakening friction law: histories of perturbations of fused fault points.
// usage: friction <seed> <n>
#include <algorithm>
#include <cstring>
#include "common.h"
#include "constants.hpp"
#include "impl/seismic/solvers/FrictionLaws.hpp"
using namespace edge::seismic::solvers;
typedef std::vector< std::vector< long > > VV;
static const int TRI[][2] = { {0,0},{3,4},{4,3},{5,12},{12,5},{8,15},{15,8},{7,24},{20,21},{6,8},{9,12},{0,5},{10,0},{0,13},{28,21},{12,16} };

template< typename R, int ND, int CR > static void seq( Rng & r ) {
  static const int NQ = ND == 2 ? 5 : 9, NS = ND-1, S0 = ND == 2 ? 2 : 3, NSF = 3; int const sh[2] = { S0, 5 }, ve[2] = { ND == 2 ? 4 : 7, 8 };
  t_LinSlipWeakGlobal< R, CR > gl; t_LinSlipWeakFace< R > fa; t_LinSlipWeakSubFace< R, ND, CR > sf[NSF];
  memset( (void *) sf, 0, sizeof( sf ) ); memset( (void *) &fa, 0, sizeof( fa ) );
  struct { t_LinSlipWeakGlobal< R, CR > * gl; t_LinSlipWeakFace< R > * fa; t_LinSlipWeakSubFace< R, ND, CR > (*sf)[NSF]; } da = { &gl, &fa, &sf };
  fa.lEqM = r.coin(); fa.csDmuM = r.range( 1, 24 )/16.0; fa.csDmuP = r.range( 1, 24 )/16.0; bool sym = r.coin( 1, 3 ); if( sym ) fa.csDmuP = fa.csDmuM;
  std::vector< long > dc( CR ), m( CR ); bool slow = r.coin();
  for( int l = 0; l < CR; l++ ) { int d = r.range( 1, 15 ), s = r.range( d, 16 ); gl.mus[l] = s/16.0; gl.mud[l] = d/16.0; dc[l] = r.pick( std::vector< long >{ 1, 4, 16, 32, 64, 320 } ); gl.dcInv[l] = (R) 1/(R) ( dc[l]/16.0 ); }
  for( int f = 0; f < NSF; f++ ) for( int l = 0; l < CR; l++ ) {
    auto & x = sf[f]; x.sn0[l] = -r.range( 0, 320 )/4.0; x.co0[l] = r.coin() ? 0 : -r.range( 0, 40 )/4.0; for( int d = 0; d < NS; d++ ) { x.ss0[d][l] = r.coin( 1, 5 ) ? 0 : r.range( -160, 160 )/4.0; x.dd[d][l] = 0; }
    x.ss0A[l] = ND == 2 ? std::abs( x.ss0[0][l] ) : std::sqrt( x.ss0[0][l]*x.ss0[0][l]+x.ss0[NS-1][l]*x.ss0[NS-1][l] ); x.muf[l] = gl.mus[l];
    if( r.coin( 1, 4 ) ) { x.muf[l] = gl.mud[l]; for( int d = 0; d < NS; d++ ) x.dd[d][l] = dc[l]/16.0+r.range( 0, 4 ); }   // fully weakened
    else if( r.coin( 1, 4 ) && dc[l] >= 16 ) { // half way
      x.dd[0][l] = dc[l]/32.0; x.muf[l] = gl.mus[l]-( gl.mus[l]-gl.mud[l] )*0.5; }
  }
  int T = r.range( 1, 6 ); std::vector< bool > ex( NSF*CR, true );
  for( int t = 0; t < T; t++ ) {
    int f = r.below( NSF ); R dt = r.pick( std::vector< int >{ 1, 1, 2, 8 } )/( slow ? 256.0 : 64.0 ), ms[NQ][CR], k0[NQ][CR], L[NQ][CR], Q[NQ][CR]; bool per[CR];
    for( int l = 0; l < CR; l++ ) {
      for( int q = 0; q < NQ; q++ ) ms[q][l] = r.range( -120, 120 )/4.0;
      ms[0][l] = r.range( -160, r.coin( 1, 5 ) ? 160 : 20 )/4.0;
      // trial traction: below, at, or above the strength, along or against the initial stress
      double m16 = sf[f].muf[l], st = std::max( 0.0, -( m16*( sf[f].sn0[l]+ms[0][l] )+sf[f].co0[l] ) ); int k = r.below( 6 ); double tr[2] = { 0, 0 };
      if( ND == 2 ) tr[0] = ( r.coin() ? 1 : -1 )*( k == 0 ? st : k == 1 ? std::max( 0.0, st-r.range( 0, 40 )/4.0 ) : k == 2 ? 0 : k == 3 ? st+0.25 : st+r.range( 0, 100 )/4.0 );
      else { auto p = TRI[r.below( sizeof( TRI )/sizeof( TRI[0] ) )]; double s = k == 0 ? 1 : k == 1 ? 0.25 : k == 2 ? 0.5 : r.range( 1, 6 )/2.0; tr[0] = p[0]*s*( r.coin() ? 1 : -1 ); tr[1] = p[1]*s*( r.coin() ? 1 : -1 );
        // equal to the strength by means of the normal stress
        if( k < 3 && r.coin() ) { double n = std::sqrt( tr[0]*tr[0]+tr[1]*tr[1] ); if( n > 0 && m16 > 0 ) { double sn = -( n+sf[f].co0[l] )/m16; if( std::abs( sn ) < 100 && sn == std::floor( sn*4 )/4 ) ms[0][l] = sn-sf[f].sn0[l]; } } }
      for( int d = 0; d < NS; d++ ) ms[sh[d]][l] = std::floor( tr[d]*4 )/4-sf[f].ss0[d][l];
      if( ND == 2 && k == 0 && st == std::floor( st*16 )/16 ) ms[S0][l] = tr[0]-sf[f].ss0[0][l];
    }
    t_LinSlipWeakSubFace< R, ND, CR > b[NSF]; memcpy( (void *) b, (void *) sf, sizeof( sf ) ); memcpy( k0, ms, sizeof( ms ) );
    for( int q = 0; q < NQ; q++ ) for( int l = 0; l < CR; l++ ) L[q][l] = Q[q][l] = 99; for( int l = 0; l < CR; l++ ) per[l] = r.coin();
    auto gl0 = gl; auto fa0 = fa; bool kept = true;
    if( r.coin() ) FrictionLaws< ND, CR >::perturb( dt, gl, fa, ms, sf[f], L, Q, per ); else FrictionLaws< ND, CR >::perturb( (unsigned short) f, dt, ms, &da, L, Q, per );
    kept &= !memcmp( ms, k0, sizeof( ms ) ) && !memcmp( &gl, &gl0, sizeof( gl ) ) && !memcmp( (void *) &fa, (void *) &fa0, sizeof( fa ) );
    for( int g = 0; g < NSF; g++ ) if( g != f ) kept &= !memcmp( (void *) &sf[g], (void *) &b[g], sizeof( sf[g] ) );
    for( int l = 0; l < CR; l++ ) {
      auto & x = sf[f]; auto & y = b[f]; bool oth = kept, eq = true, still = true, e = ex[f*CR+l]; std::vector< long > d0, d1, ss, tm, tr, sr, vm, vl, vr, sl, srr;
      oth &= x.sn0[l] == y.sn0[l] && x.co0[l] == y.co0[l] && x.ss0A[l] == y.ss0A[l];
      for( int q = 0; q < NQ; q++ ) { bool s = q == sh[0] || q == ve[0] || ( ND == 3 && ( q == sh[1] || q == ve[1] ) ); if( !s ) oth &= L[q][l] == ms[q][l] && Q[q][l] == ms[q][l]; still &= L[q][l] == ms[q][l] && Q[q][l] == ms[q][l]; }
      for( int d = 0; d < NS; d++ ) {
        oth &= x.ss0[d][l] == y.ss0[d][l]; eq &= L[sh[d]][l] == Q[sh[d]][l]; still &= x.sr[d][l] == 0 && x.dd[d][l] == y.dd[d][l];
        d0.push_back( fix( y.dd[d][l], 1E3 ) ); d1.push_back( fix( x.dd[d][l], 1E3 ) ); ss.push_back( fix( x.ss0[d][l], 1E3 ) ); tm.push_back( fix( ms[sh[d]][l], 1E3 ) ); tr.push_back( fix( x.tr[d][l], 1E3 ) ); sr.push_back( fix( x.sr[d][l], 1E3 ) );
        vm.push_back( fix( ms[ve[d]][l], 1E3 ) ); vl.push_back( fix( L[ve[d]][l], 1E3 ) ); vr.push_back( fix( Q[ve[d]][l], 1E3 ) ); sl.push_back( fix( L[sh[d]][l], 1E3 ) ); srr.push_back( fix( Q[sh[d]][l], 1E3 ) );
      }
      bool mono = true; for( int d = 0; d < NS; d++ ) mono &= x.dd[d][l] >= y.dd[d][l];
      bool xe = e && exact( y.muf[l], 16 ) && exact( ms[0][l], 4 ) && !( sizeof( R ) == 4 && ND == 3 ); for( int d = 0; d < NS; d++ ) xe &= exact( ms[sh[d]][l], 4 );
      Rec().n( "nd", ND ).n( "ex", xe ).n( "t", t ).n( "lEqM", fa.lEqM ).n( "csM", std::lround( fa.csDmuM*16 ) ).n( "csP", std::lround( fa.csDmuP*16 ) ).n( "mus", fix( gl.mus[l], 1E4 ) ).n( "mud", fix( gl.mud[l], 1E4 ) ).n( "dc", dc[l] ).n( "dt", std::lround( dt*256 ) )
        .n( "mu0", fix( y.muf[l], 1E4 ) ).n( "mu1", fix( x.muf[l], 1E4 ) ).n( "sn", fix( x.sn0[l]+ms[0][l], 1E3 ) ).n( "co", fix( x.co0[l], 1E3 ) ).n( "st", fix( x.st[l], 1E3 ) ).n( "per", per[l] )
        .a( "ss", ss ).a( "ms", tm ).a( "tr", tr ).a( "d0", d0 ).a( "d1", d1 ).a( "sr", sr ).a( "vm", vm ).a( "vl", vl ).a( "vr", vr ).a( "sl", sl ).a( "rr", srr ).n( "oth", oth ).n( "eq", eq ).n( "still", still ).n( "mono", mono ).put();
    }
  }
}
int main( int, char ** argv ) {
  Rng r( atol( argv[1] ) ); int n = atoi( argv[2] );
  for( int i = 0; i < n; i++ ) { seq< double, 2, 1 >( r ); seq< double, 3, 1 >( r ); seq< double, 2, 4 >( r ); seq< double, 3, 4 >( r ); seq< float, 2, 8 >( r ); seq< float, 3, 3 >( r ); }
  return 0;
}
