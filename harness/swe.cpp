// Driver of the shallow water solver: single steps from exactly representable states, and runs of many steps.
// usage: swe <seed> <n steps> <n runs>
#include <algorithm>
#include <array>
#include <cstring>
#include <type_traits>
#include "common.h"
#include "impl/swe/solvers/FiniteVolume.hpp"
#include "io/logging.h"
INITIALIZE_EASYLOGGINGPP
typedef std::vector< std::vector< long > > VV;
struct CFa { double outNormal[2]; double area; long long spType; };
struct CEl { double volume, inDia; };
static const double S = 0.25;

// closed 1d or 2d domains of lines, rectangles or triangles; normals in units of 1/5, areas and volumes in units of S and S^2
template< t_entityType EL > struct Dom {
  static const int NF = C_ENT[EL].N_FACES, ND = C_ENT[EL].N_DIM, NQ = ND == 1 ? 2 : 3;
  struct Fa { long l, r, ty, nx, ny, a; };
  std::vector< Fa > fa; std::vector< long > vol; std::vector< std::array< int, NF > > elFa; int nE;
  Dom( Rng & r, int bnd ) {   // bnd: -1: any boundary, else type of all
    int nx = r.range( 1, 4 ), ny = ND == 1 ? 1 : r.range( 1, 3 ); std::vector< Fa > f; std::vector< long > v;
    bool px = nx > 1 && r.coin( 1, 4 ), py = ny > 1 && r.coin( 1, 4 );  // periodic
    auto bt = [&]() { return bnd >= 0 ? (long) bnd : (long) r.range( 1, 2 ); };
    auto id = [&]( int x, int y, int k ) { return EL == TRIA3 ? 2*( y*nx+x )+k : y*nx+x; };
    nE = nx*ny*( EL == TRIA3 ? 2 : 1 );
    for( int y = 0; y < ny; y++ ) for( int x = 0; x < nx; x++ ) {
      bool fl = EL == TRIA3 && ( ( x+y ) & 1 ) && !px && !py;       // orientation of the diagonal
      // triangle 0 has the bottom face, triangle 1 the top face; the diagonal decides who has left and right
      int kb = 0, kt = EL == TRIA3, kl = EL != TRIA3 ? 0 : fl ? 0 : 1, kr = EL != TRIA3 ? 0 : fl ? 1 : 0;
      if( EL == TRIA3 ) f.push_back( fl ? Fa{ id(x,y,0), id(x,y,1), 0, 4, 3, 5 } : Fa{ id(x,y,0), id(x,y,1), 0, -4, 3, 5 } );
      auto nl = [&]( int X, int Y ) { bool g = EL == TRIA3 && ( ( X+Y ) & 1 ) && !px && !py; return EL != TRIA3 ? 0 : g ? 0 : 1; };
      long ax = ND == 1 ? 1 : 4;
      if( x+1 < nx || px ) f.push_back( { id(x,y,kr), id((x+1)%nx,y,nl((x+1)%nx,y)), 0, 5, 0, ax } ); else f.push_back( { id(x,y,kr), -1, bt(), 5, 0, ax } );
      if( x == 0 && !px ) f.push_back( { id(x,y,kl), -1, bt(), -5, 0, ax } );
      if( ND == 2 ) {
        if( y+1 < ny || py ) f.push_back( { id(x,y,kt), id(x,(y+1)%ny,kb), 0, 0, 5, 3 } ); else f.push_back( { id(x,y,kt), -1, bt(), 0, 5, 3 } );
        if( y == 0 && !py ) f.push_back( { id(x,y,kb), -1, bt(), 0, -5, 3 } );
      }
    }
    for( int e = 0; e < nE; e++ ) v.push_back( EL == TRIA3 ? 6 : ND == 1 ? r.range( 1, 3 ) : 12 );
    // arbitrary numbering and orientation
    std::vector< int > pe( nE ); for( int e = 0; e < nE; e++ ) pe[e] = e; r.shuffle( pe ); r.shuffle( f ); vol.resize( nE ); elFa.resize( nE );
    for( int e = 0; e < nE; e++ ) vol[pe[e]] = v[e];
    for( auto x : f ) { x.l = pe[x.l]; if( x.r >= 0 ) { x.r = pe[x.r]; if( r.coin() ) { std::swap( x.l, x.r ); x.nx = -x.nx; x.ny = -x.ny; } } fa.push_back( x ); }
    std::vector< std::vector< int > > ef( nE ); for( size_t i = 0; i < fa.size(); i++ ) { ef[fa[i].l].push_back( i ); if( fa[i].r >= 0 ) ef[fa[i].r].push_back( i ); }
    for( int e = 0; e < nE; e++ ) { if( (int) ef[e].size() != NF ) { fprintf( stderr, "mesh\n" ); exit( 3 ); } r.shuffle( ef[e] ); std::copy( ef[e].begin(), ef[e].end(), elFa[e].begin() ); }
  }
  bool selfLoop() const { for( auto & f : fa ) if( f.l == f.r ) return true; return false; }
};
static const long long SP[3] = { 0, OUTFLOW, REFLECTING };

template< t_entityType EL, int CR > struct Sim {
  typedef Dom< EL > D; static const int NQ = D::NQ, NF = D::NF; typedef edge::swe::solvers::FiniteVolume< EL, CR > FV;
  std::vector< CFa > cf; std::vector< CEl > ce; std::vector< size_t > faEl, elFa; std::vector< double > q, b, nu; D const & d; std::vector< double > b0;
  Sim( D const & i, Rng & r ): d( i ) {
    for( auto & f : d.fa ) { CFa c; c.outNormal[0] = f.nx/5.0; c.outNormal[1] = f.ny/5.0; c.area = D::ND == 1 ? f.a : f.a*S; c.spType = SP[f.ty] | ( r.coin() ? 1ll << r.range( 8, 40 ) : 0 ); cf.push_back( c ); faEl.push_back( f.l ); faEl.push_back( f.r < 0 ? std::numeric_limits< size_t >::max() : f.r ); }
    for( int e = 0; e < d.nE; e++ ) { ce.push_back( { D::ND == 1 ? d.vol[e]*S : d.vol[e]*S*S, S } ); for( int f : d.elFa[e] ) elFa.push_back( f ); }
    q.assign( d.nE*NQ*CR, 0 ); b.assign( d.nE, 0 ); nu.assign( d.fa.size()*4*CR, 77 );
  }
  double & Q( int e, int k, int l ) { return q[( e*NQ+k )*CR+l]; }
  double NU( int f, int s, int k, int l ) { return nu[( ( f*2+s )*2+k )*CR+l]; }
  void nus( size_t a, size_t n ) { FV::nusN( a, n, (size_t const (*)[2]) faEl.data(), cf.data(), (double const (*)[NQ][1][CR]) q.data(), (double const (*)[1][1]) b.data(), (double (*)[2][2][CR]) nu.data() ); }
  void upd( size_t a, size_t n, double dt ) { FV::update( a, n, dt, (size_t const (*)[2]) faEl.data(), (size_t const (*)[NF]) elFa.data(), cf.data(), ce.data(), (double const (*)[2][2][CR]) nu.data(), (double (*)[NQ][1][CR]) q.data() ); }
  // a step, in pieces and in any order of the pieces
  void step( double dt, Rng & r ) {
    auto parts = [&]( size_t n ) { std::vector< std::pair< size_t, size_t > > p; size_t i = 0; while( i < n ) { size_t k = 1+r.below( n-i ); p.push_back( { i, k } ); i += k; } r.shuffle( p ); return p; };
    for( auto p : parts( d.fa.size() ) ) nus( p.first, p.second );
    for( auto p : parts( d.nE ) ) upd( p.first, p.second, dt );
  }
};
template< t_entityType EL, int CR > static void lanes( Dom< EL > const & d, Sim< EL, CR > & s, Sim< EL, 1 > * one, Sim< EL, CR > const & s0, uint64_t seed, int T, double dt, std::vector< long > & same ) {
  same.assign( CR, 1 );
  for( int l = 0; l < CR; l++ ) {
    Rng r( seed ); Sim< EL, 1 > x( d, r ); x.b = s0.b; for( int e = 0; e < d.nE; e++ ) for( int k = 0; k < Dom< EL >::NQ; k++ ) x.Q( e, k, 0 ) = const_cast< Sim< EL, CR > & >( s0 ).Q( e, k, l );
    for( int t = 0; t < T; t++ ) x.step( dt, r );
    for( int e = 0; e < d.nE; e++ ) for( int k = 0; k < Dom< EL >::NQ; k++ ) if( !( std::abs( x.Q( e, k, 0 )-s.Q( e, k, l ) ) <= 1E-9 ) ) same[l] = 0;
    for( size_t f = 0; f < d.fa.size(); f++ ) for( int i = 0; i < 4; i++ ) if( ( d.fa[f].r >= 0 || i < 2 ) && !( std::abs( x.NU( f, i/2, i%2, 0 )-s.NU( f, i/2, i%2, l ) ) <= 1E-8 ) ) same[l] = 0;
  }
}
template< t_entityType EL > static VV faces( Dom< EL > const & d ) { VV v; for( auto & f : d.fa ) v.push_back( { f.l, f.r, f.ty, f.nx, f.ny, f.a } ); return v; }
template< t_entityType EL > static VV elfas( Dom< EL > const & d ) { VV v; for( auto & f : d.elFa ) v.push_back( std::vector< long >( f.begin(), f.end() ) ); return v; }

// heights of fused runs in a cell; all lanes share the bathymetry
template< t_entityType EL, int CR > static void stepRec( Rng & r ) {
  Dom< EL > d( r, -1 ); if( d.selfLoop() ) return; Sim< EL, CR > s( d, r ); static const int NQ = Dom< EL >::NQ; std::vector< VV > in( CR ); int K = 64, dry = r.range( 0, 2 );
  bool lake = r.coin( 1, 3 ); int eta = r.range( 0, 6 ); static const int sq[] = { 1, 4, 9, 16, 25 };
  std::vector< long > b4( d.nE ); for( auto & x : b4 ) { x = r.coin( dry, 5 ) ? r.range( 0, 8 ) : -r.range( 1, 24 ); }
  for( int e = 0; e < d.nE; e++ ) s.b[e] = b4[e]/4.0;
  for( int l = 0; l < CR; l++ ) { bool lk = lake && ( l % 2 == 0 ); int em = r.range( 0, 5 ), el = eta+l; for( int e = 0; e < d.nE; e++ ) {
    long h = b4[e] >= 0 ? 0 : lk ? el-b4[e] : r.coin( 3, 4 ) ? sq[r.below( 5 )] : r.range( 1, 32 ), u = b4[e] >= 0 || lk ? 0 : r.range( -8*em, 8*em )/5, v = b4[e] >= 0 || lk || NQ == 2 ? 0 : r.range( -8*em, 8*em )/5;
    if( b4[e] >= 0 && r.coin( 1, 6 ) ) { h = r.range( 0, 4 ); if( h ) u = r.range( -2, 2 ); }    // whatever a dry cell holds stays
    in[l].push_back( { h, b4[e], u, v } ); s.Q( e, 0, l ) = h/4.0; s.Q( e, 1, l ) = u/4.0; if( NQ == 3 ) s.Q( e, 2, l ) = v/4.0;
  } }
  Sim< EL, CR > s0 = s; double dt = S/K; if( Dom< EL >::ND == 1 ) dt = S/K; uint64_t seed = r.next(); s.step( dt, r ); std::vector< long > same; lanes< EL, CR >( d, s, nullptr, s0, seed, 1, dt, same );
  bool bk = true; for( int e = 0; e < d.nE; e++ ) bk &= s.b[e] == b4[e]/4.0;
  for( int l = 0; l < CR; l++ ) {
    VV nu, lam, nq; std::vector< long > dk;
    for( size_t f = 0; f < d.fa.size(); f++ ) { nu.emplace_back(); lam.emplace_back(); for( int i = 0; i < 2; i++ ) {
      double a = s.NU( f, i, 0, l ), c = s.NU( f, i, 1, l ); if( d.fa[f].r < 0 && i == 1 ) a = c = 0;
      nu.back().push_back( fix( a, 1E5 ) ); nu.back().push_back( fix( c, 1E5 ) ); lam.back().push_back( std::abs( a ) < 0.05 ? 0 : fix( c/a, 1E3 ) ); } }
    for( int e = 0; e < d.nE; e++ ) { nq.push_back( { fix( s.Q( e, 0, l ), 1E5 ), fix( s.Q( e, 1, l ), 1E5 ), NQ == 3 ? fix( s.Q( e, 2, l ), 1E5 ) : 0 } ); bool k = true; for( int i = 0; i < NQ; i++ ) k &= s.Q( e, i, l ) == s0.Q( e, i, l ); dk.push_back( k ); }
    Rec().s( "k", "step" ).n( "nd", Dom< EL >::ND ).n( "K", K ).aa( "fa", faces( d ) ).aa( "elFa", elfas( d ) ).a( "vol", d.vol ).aa( "in", in[l] ).aa( "nu", nu ).aa( "lam", lam ).aa( "q", nq ).a( "kept", dk ).n( "bath", bk ).n( "same", same[l] ).put();
  }
}
template< t_entityType EL, int CR > static void runRec( Rng & r ) {
  int bnd = r.coin( 1, 5 ) ? 1 : 2; Dom< EL > d( r, bnd ); if( d.selfLoop() ) return; Sim< EL, CR > s( d, r ); static const int NQ = Dom< EL >::NQ; int T = r.range( 2, 40 ), dry = r.range( 0, 2 );
  std::vector< int > lake( CR ); for( auto & x : lake ) x = r.coin( 1, 3 ); VV bs( 1 );
  for( int e = 0; e < d.nE; e++ ) { s.b[e] = r.coin( dry, 6 ) ? r.range( 0, 1000 )/300.0 : -4 - r.range( 0, 300 )/100.0; }
  for( int l = 0; l < CR; l++ ) { double eta = r.range( -100, 100 )/97.0; for( int e = 0; e < d.nE; e++ ) { if( s.b[e] >= 0 ) continue;
    s.Q( e, 0, l ) = lake[l] ? eta-s.b[e] : eta-s.b[e]+r.range( -100, 100 )/100.0; for( int k = 1; k < NQ; k++ ) s.Q( e, k, l ) = lake[l] ? 0 : r.range( -100, 100 )/50.0; } }
  Sim< EL, CR > s0 = s; uint64_t seed = r.next(); double dt = S/64; for( int t = 0; t < T; t++ ) s.step( dt, r ); std::vector< long > same; lanes< EL, CR >( d, s, nullptr, s0, seed, T, dt, same );
  bool bk = s.b == s0.b;
  for( int l = 0; l < CR; l++ ) {
    VV a, z; std::vector< long > dk, dr; for( int e = 0; e < d.nE; e++ ) { a.emplace_back(); z.emplace_back(); bool k = true; for( int i = 0; i < NQ; i++ ) { a.back().push_back( fix( s0.Q( e, i, l ), 1E6 ) ); z.back().push_back( fix( s.Q( e, i, l ), 1E6 ) ); k &= s.Q( e, i, l ) == s0.Q( e, i, l ); } dk.push_back( k ); dr.push_back( s.b[e] >= 0 ); }
    bool closed = bnd == 2; for( auto & f : d.fa ) closed &= f.ty != 1;
    Rec().s( "k", "run" ).n( "T", T ).n( "closed", closed ).n( "lake", lake[l] ).a( "vol", d.vol ).a( "dry", dr ).aa( "q0", a ).aa( "q", z ).a( "kept", dk ).n( "bath", bk ).n( "same", same[l] ).put();
  }
}
int main( int, char ** argv ) {
  el::Configurations c; c.setToDefault(); c.setGlobally( el::ConfigurationType::ToStandardOutput, "false" ); c.setGlobally( el::ConfigurationType::ToFile, "false" ); el::Loggers::reconfigureAllLoggers( c );
  Rng r( atol( argv[1] ) ); int n = atoi( argv[2] ), m = atoi( argv[3] );
  for( int i = 0; i < n; i++ ) { stepRec< LINE, 1 >( r ); stepRec< LINE, 4 >( r ); stepRec< QUAD4R, 4 >( r ); stepRec< TRIA3, 4 >( r ); stepRec< QUAD4R, 1 >( r ); stepRec< TRIA3, 1 >( r ); stepRec< TRIA3, 8 >( r ); }
  for( int i = 0; i < m; i++ ) { runRec< LINE, 1 >( r ); runRec< LINE, 4 >( r ); runRec< QUAD4R, 4 >( r ); runRec< TRIA3, 4 >( r ); runRec< QUAD4R, 1 >( r ); runRec< TRIA3, 1 >( r ); }
  return 0;
}
