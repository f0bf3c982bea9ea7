// Driver of the kinematic point sources: files with sources, meshes distributed over ranks, and calls of arbitrary steps.
// usage: points <dir> <seed> <n>; compiled per element type (EL, TYNAME), order (ORD), precision (REAL) and number of fused runs (NCR)
#include <algorithm>
#include <array>
#include <cstring>
#include <mpi.h>
#include "common.h"
#include "constants.hpp"
#include "parallel/global.h"
#include "impl/seismic/setups/PointSources.hpp"
#include "io/logging.h"
INITIALIZE_EASYLOGGINGPP
// reductions over ranks, which run one after the other, and again until all of them know all values
static int nRk, rk; static size_t cl; static std::vector< std::vector< std::vector< double > > > vals;
extern "C" int MPI_Allreduce( const void * in, void * out, int n, MPI_Datatype ty, MPI_Op op, MPI_Comm ) {
  if( op != MPI_MIN || ( ty != MPI_DOUBLE && ty != MPI_INT ) ) exit( 3 );
  if( vals.size() <= cl ) vals.resize( cl+1 ); vals[cl].resize( nRk ); std::vector< double > & v = vals[cl][rk]; v.resize( n );
  for( int i = 0; i < n; i++ ) v[i] = ty == MPI_INT ? ((int *) in)[i] : ((double *) in)[i];
  for( int i = 0; i < n; i++ ) { double m = v[i]; for( auto & o : vals[cl] ) if( (int) o.size() == n ) m = std::min( m, o[i] ); if( ty == MPI_INT ) ((int *) out)[i] = (int) m; else ((double *) out)[i] = m; }
  cl++; return MPI_SUCCESS;
}
static const int ND = C_ENT[EL].N_DIM, NV = C_ENT[EL].N_VERTICES, NM = CE_N_ELEMENT_MODES( EL, ORD ), NQ = ND == 2 ? 5 : 9, K = 4;
typedef unsigned int L; typedef edge::seismic::setups::PointSources< REAL, L, EL, ORD, NCR > PS; typedef REAL Dofs[NQ][NM][NCR];
struct CVe { double coords[3]; }; struct CEl { long long spType; };
typedef std::vector< long > V; typedef std::vector< V > VV;
static void put( hid_t h, char const * n, hid_t ty, std::vector< hsize_t > d, void const * v ) { hid_t s = H5Screate_simple( d.size(), d.data(), NULL ), t = H5Dcreate( h, n, ty, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT ); if( d[0] ) H5Dwrite( t, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, v ); H5Dclose( t ); H5Sclose( s ); }
struct Src { int run; V p; long on, d; V v, sca; };

int main( int, char ** argv ) {
  el::Configurations conf; conf.setGlobally( el::ConfigurationType::Enabled, "false" ); el::Loggers::reconfigureAllLoggers( conf );
  std::string dir = argv[1]; Rng r( atoll( argv[2] )*7919+EL*13+ORD+NCR ); int n = atoi( argv[3] ); const long long SP = 1ll << 40;
  static const int PERM[6][3] = { {0,1,2}, {1,2,0}, {2,0,1}, {0,2,1}, {2,1,0}, {1,0,2} };
  for( int cs = 0; cs < n; cs++ ) {
    // mesh: nx x ny (x nz) cells of powers of two, split into simplices if required
    int c[3] = { (int) r.range( 1, 3 ), (int) r.range( 1, ND == 3 ? 2 : 3 ), ND == 3 ? (int) r.range( 1, 2 ) : 0 }; double h[3], off[3]; for( int d = 0; d < 3; d++ ) { h[d] = 1.0/( 1 << r.below( 3 ) ); off[d] = h[d]*r.range( -3, 3 ); }
    VV ve, els; auto id = [&]( int x, int y, int z ) { return ( z*( c[1]+1 )+y )*( c[0]+1 )+x; };
    for( int z = 0; z <= c[2]; z++ ) for( int y = 0; y <= c[1]; y++ ) for( int x = 0; x <= c[0]; x++ ) { ve.push_back( { x*K, y*K } ); if( ND == 3 ) ve.back().push_back( z*K ); }
    for( int z = 0; z < std::max( 1, c[2] ); z++ ) for( int y = 0; y < c[1]; y++ ) for( int x = 0; x < c[0]; x++ ) {
      if( EL == QUAD4R ) els.push_back( { id(x,y,0), id(x+1,y,0), id(x+1,y+1,0), id(x,y+1,0) } );
      else if( EL == HEX8R ) els.push_back( { id(x,y,z), id(x+1,y,z), id(x+1,y+1,z), id(x,y+1,z), id(x,y,z+1), id(x+1,y,z+1), id(x+1,y+1,z+1), id(x,y+1,z+1) } );
      else if( EL == TRIA3 ) { els.push_back( { id(x,y,0), id(x+1,y,0), id(x+1,y+1,0) } ); els.push_back( { id(x,y,0), id(x+1,y+1,0), id(x,y+1,0) } ); }
      else for( int p = 0; p < 6; p++ ) { int q[3] = { x, y, z }; V e = { id(x,y,z) }; for( int i = 0; i < 3; i++ ) { q[PERM[p][i]]++; e.push_back( id( q[0], q[1], q[2] ) ); } if( p >= 3 ) std::swap( e[2], e[3] ); els.push_back( e ); }
    }
    if( EL == TRIA3 || EL == TET4 ) for( auto & e : els ) { int k = r.below( NV ); if( EL == TRIA3 ) std::rotate( e.begin(), e.begin()+k, e.end() ); else std::rotate( e.begin(), e.begin()+k%3, e.begin()+3 ); }
    r.shuffle( els ); int ne = els.size();
    // ranks
    nRk = r.coin() ? 1 : r.range( 2, 3 ); std::vector< V > own( nRk ); for( int e = 0; e < ne; e++ ) own[r.below( nRk )].push_back( e );
    bool full = true; for( auto & o : own ) full &= o.size() > 0; if( !full ) { own.assign( 1, V() ); nRk = 1; for( int e = 0; e < ne; e++ ) own[0].push_back( e ); }
    // sources; ids of HDF5 in arbitrary order of the elements
    double TU = r.coin() ? 1.0/32 : ( sizeof( REAL ) == 4 ? 0.25 : r.pick( std::vector< double >( { 0.01, 0.1, 1.0/3, 0.003 } ) ) ); bool dyad = TU == 1.0/32 || TU == 0.25;
    std::vector< Src > src; std::vector< std::vector< int > > byRun( NCR ); int ties = 1; bool undef = r.coin( 1, 25 );
    for( int k = 0; k < NCR; k++ ) { int ns = r.coin( 1, 12 ) ? 0 : r.range( 1, 5 ); for( int s = 0; s < ns; s++ ) {
      Src x; x.run = k+1; x.on = r.range( 0, 20 ); x.d = 1 << r.below( 4 ); int nv = r.range( 1, 6 ); for( int i = 0; i < nv; i++ ) x.v.push_back( r.range( -3, 4 ) ); for( int q = 0; q < NQ; q++ ) x.sca.push_back( r.range( -3, 3 ) );
      bool again = s > 0 && r.coin( 1, 3 ), tie = ties > 0 && r.coin( 1, 5 );
      if( again ) x.p = src.back().p;
      else if( tie ) { ties--; for( int d = 0; d < ND; d++ ) x.p.push_back( r.range( 0, c[d]*K ) ); if( EL == QUAD4R || EL == HEX8R ) for( int d = 0; d < ND; d++ ) if( r.coin( 1, 3 ) ) x.p[d] += r.coin() ? c[d]*K : -c[d]*K; }
      else { // inside of an element: 1/K barycentric coordinates of (at least) 1
        V e = els[r.below( ne )]; x.p.assign( ND, 0 ); bool cube = EL == QUAD4R || EL == HEX8R;
        if( cube ) { for( int d = 0; d < ND; d++ ) x.p[d] = ve[e[0]][d]+r.range( 1, K-1 ); }
        else { V l( NV, 1 ); for( int i = NV; i < K; i++ ) l[r.below( NV )]++; for( int v = 0; v < NV; v++ ) for( int d = 0; d < ND; d++ ) x.p[d] += l[v]*ve[e[v]][d]; for( auto & q : x.p ) q /= K; }
      }
      byRun[k].push_back( src.size() ); src.push_back( x );
    } }
    // a source with more than one candidate and further ones at its position is ambiguous: only one each
    std::string paths[NCR];
    for( int k = 0; k < NCR; k++ ) {
      paths[k] = dir+"/s"+std::to_string( k )+".h5"; std::vector< float > pts, sca, par, ser; std::vector< uint64_t > ptr = { 0 }; hsize_t ns = byRun[k].size();
      for( int s : byRun[k] ) { Src & x = src[s]; for( int d = 0; d < ND; d++ ) pts.push_back( off[d]+h[d]*x.p[d]/K ); for( long q : x.sca ) sca.push_back( q ); par.push_back( x.on*TU ); par.push_back( x.d*TU ); for( long v : x.v ) ser.push_back( v ); ptr.push_back( ser.size() ); }
      hid_t f = H5Fcreate( paths[k].c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT );
      put( f, "points", H5T_NATIVE_FLOAT, { ns, (hsize_t) ND }, pts.data() ); put( f, "scalings", H5T_NATIVE_FLOAT, { ns, (hsize_t) NQ }, sca.data() ); put( f, "time_parameters", H5T_NATIVE_FLOAT, { ns, 2 }, par.data() );
      put( f, "time_pointers", H5T_NATIVE_UINT64, { ns+1 }, ptr.data() ); put( f, "time_series", H5T_NATIVE_FLOAT, { (hsize_t) ser.size() }, ser.data() ); H5Fclose( f );
    }
    if( undef ) paths[r.below( NCR )] = "";
    V mass( NM ); for( auto & m : mass ) m = 1 << r.below( 3 ); REAL massI[64]; for( int m = 0; m < NM; m++ ) massI[m] = mass[m];
    std::vector< CVe > cve; for( auto & v : ve ) { CVe x = {{0,0,0}}; for( int d = 0; d < ND; d++ ) x.coords[d] = off[d]+h[d]*v[d]/K; cve.push_back( x ); }
    // per rank
    V flag( ne, 0 ); VV calls, rks; bool ret = true; long nz = 0; std::vector< std::vector< VV > > res( NCR, std::vector< VV >( ne ) ); double scale = 16.0*64/TU; for( int d = 0; d < ND; d++ ) scale *= h[d];
    vals.clear(); int passes = nRk > 1 ? 3 : 1; long T0 = r.coin( 2, 3 ) ? 0 : r.range( 0, 25 ), T1 = r.coin( 2, 3 ) ? 70 : r.range( T0, 70 );
    edge::data::Dynamic dyn;
    for( int p = 0; p < passes; p++ ) for( rk = 0; rk < nRk; rk++ ) {
      cl = 0; edge::parallel::g_rank = rk; V & o = own[rk]; std::vector< CEl > cel( o.size() ); std::vector< long long > oth( o.size() ); for( size_t e = 0; e < o.size(); e++ ) { oth[e] = r.below( 8 ); cel[e].spType = oth[e]; }
      std::vector< std::array< L, 8 > > b( o.size() ); std::vector< L > elVe; for( long e : o ) for( long v : els[e] ) elVe.push_back( v );
      PS ps; bool x = ps.init( paths, SP, (L) o.size(), (L (*)[NV]) elVe.data(), cve.data(), massI, cel.data(), dyn ); if( p < passes-1 ) continue;
      ret &= x; int ns = 0; for( size_t e = 0; e < o.size(); e++ ) { if( ( cel[e].spType & ~SP ) != oth[e] ) nz++; if( cel[e].spType & SP ) { flag[o[e]] = 1; ns++; } }
      rks.emplace_back(); for( long e : o ) rks.back().push_back( e+1 );
      std::vector< REAL > mem( o.size()*NQ*NM*NCR, 0 ); Dofs * dofs = (Dofs *) mem.data();
      // regions of source elements with step sequences of their own, interleaved
      int nr = r.range( 1, 3 ), at = 0; std::vector< VV > seq; for( int g = 0; g < nr; g++ ) { int sz = g == nr-1 ? ns-at : r.range( 0, ns-at ); VV q; long t = T0; int sty = r.below( 4 ); while( t < T1 ) { long dt = sty == 0 ? T1-T0 : sty == 1 ? 1 : sty == 2 ? r.range( 1, 4 ) : r.range( 1, 30 ); long u = std::min( T1, t+dt ); q.push_back( { rk+1, at, sz, t, u } ); t = u; } std::reverse( q.begin(), q.end() ); seq.push_back( q ); at += sz; }
      for( ;; ) { std::vector< int > g; for( int i = 0; i < nr; i++ ) if( seq[i].size() ) g.push_back( i ); if( g.empty() ) break; int i = r.pick( g ); V q = seq[i].back(); seq[i].pop_back(); if( undef || ns ) { ps.apply( q[1], q[2], (REAL)( q[3]*TU ), (REAL)( q[4]*TU ), dofs ); calls.push_back( q ); } }
      for( REAL v : mem ) nz += v != 0;
      for( size_t e = 0; e < o.size(); e++ ) for( int k = 0; k < NCR; k++ ) { VV & t = res[k][o[e]]; t.assign( NQ, V( NM ) ); for( int q = 0; q < NQ; q++ ) for( int m = 0; m < NM; m++ ) t[q][m] = fix( dofs[e][q][m][k], scale ); }
    }
    std::string ss = "[", rs = "["; for( size_t i = 0; i < src.size(); i++ ) { Src & x = src[i]; ss += ( i ? "," : "" )+Rec().n( "run", x.run ).a( "p", x.p ).n( "on", x.on ).n( "d", x.d ).a( "v", x.v ).a( "sca", x.sca ).str(); }
    for( int k = 0; k < NCR; k++ ) { rs += k ? ",[" : "["; for( int e = 0; e < ne; e++ ) rs += ( e ? "," : "" )+Rec::arr2( res[k][e] ); rs += "]"; }
    for( auto & e : els ) for( auto & v : e ) v++; V lo( ND, 0 ), hi; for( int d = 0; d < ND; d++ ) hi.push_back( c[d]*K );
    Rec().s( "ty", TYNAME ).n( "ret", ret ).n( "def", !undef ).n( "nz", nz ).n( "tol", dyad ? sizeof( REAL ) == 4 ? 1 << 17 : 0 : 1 << 14 ).a( "mass", mass ).a( "lo", lo ).a( "hi", hi ).a( "flag", flag ).aa( "ve", ve ).aa( "el", els ).aa( "rk", rks ).raw( "src", ss+"]" ).aa( "calls", calls ).raw( "res", rs+"]" ).put();
  }
  return 0;
}
