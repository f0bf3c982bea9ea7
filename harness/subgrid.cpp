// Sub-grid data of EDGEpre as loaded by the solver.  usage: subgrid
// compiled per element type and order (EL, ORD, TYNAME); RAW holds the arrays written by subgrid.py.
#include <algorithm>
#include "common.h"
#include "constants.hpp"
#include "sc/Memory.hpp"
#include "data/EntityLayout.h"
#include "sc/SubCell.type"
#include "sc/SubGrid.hpp"
#include "sc/Init.hpp"
#include "io/logging.h"
INITIALIZE_EASYLOGGINGPP
#include RAW
typedef std::vector< std::vector< long > > VV; typedef std::vector< VV > VVV;
static long id( unsigned short x ) { return x == 65535 ? -1 : x; }
static std::string js( VVV const & v ) { std::string s = "["; for( size_t i = 0; i < v.size(); i++ ) { s += i ? ",[" : "["; for( size_t j = 0; j < v[i].size(); j++ ) { s += j ? ",[" : "["; for( size_t k = 0; k < v[i][j].size(); k++ ) s += ( k ? "," : "" )+std::to_string( v[i][j][k] ); s += "]"; } s += "]"; } return s+"]"; }
static const int NS = CE_N_SUB_CELLS( EL, ORD ), NF = C_ENT[EL].N_FACES, NSF = CE_N_SUB_FACES( EL, ORD ), NV = C_ENT[EL].N_VERTICES, NVF = C_ENT[EL].N_FACE_VERTICES, ND = C_ENT[EL].N_DIM,
                 NM = CE_N_ELEMENT_MODES( EL, ORD ), NSV = CE_N_SUB_VERTICES( EL, ORD ), NFSV = ND == 1 ? 1 : CE_N_SUB_VERTICES( C_ENT[EL].TYPE_FACES, ORD );
static const int NSU = ND < 3 ? 2*NF : NF+NVF*NF;
static double ops[4*NM*NSU*( NS+NSF*NF )+64];
namespace edge { namespace pre { namespace sc {
  const unsigned short * g_scsvRaw = r_scsv, * g_scsfscRaw = r_scsfsc, * g_sctysfRaw = r_sctysf, * g_scdgadRaw = r_scdgad;
  const std::size_t g_scsvSize = sizeof( r_scsv )/2, g_scsfscSize = sizeof( r_scsfsc )/2, g_sctysfSize = sizeof( r_sctysf )/2, g_scdgadSize = sizeof( r_scdgad )/2;
  const double * g_svcrdsRaw = r_svcrds; const std::size_t g_svcrdsSize = sizeof( r_svcrds )/8;
  const double * g_scatterRaw = ops; const std::size_t g_scatterSize = NM*NS; const double * g_scattersurfRaw = ops; const std::size_t g_scattersurfSize = (std::size_t) NM*NSU*NSF;
  const double * g_gatherRaw = ops; const std::size_t g_gatherSize = NM*NS; const double * g_sfintRaw = ops; const std::size_t g_sfintSize = (std::size_t) NF*NSF*NM;
} } }
typedef edge::sc::Init< EL, ORD, 2, 1 > I;
int main() {
  static edge::sc::t_connect< unsigned int, EL, ORD > c; static edge::sc::t_svChars< double, EL > sv[NSV]; static edge::sc::t_ops< double, EL, ORD > o; const int N = 2*ORD-1;
  for( size_t i = 0; i < sizeof( ops )/8; i++ ) ops[i] = (double) i;
  I::connect( c ); I::svChars( sv ); I::ops( o );
  VV vs, own, rcv, adj, ty, ad, fasc, fr, empty; VVV fsv, e3; int nin = 0;
  for( auto & v : sv ) { vs.emplace_back(); for( int d = 0; d < ND; d++ ) vs.back().push_back( fix( v.coords[d], N ) ); }
  for( int i = 0; i < NS+NF*NSF; i++ ) {
    std::vector< long > x, y; for( int v = 0; v < NV; v++ ) if( i < NS || c.scSv[i][v] != 65535 ) x.push_back( id( c.scSv[i][v] ) ); for( int f = 0; f < NF; f++ ) y.push_back( id( c.scSfSc[i][f] ) );
    ( i < NS ? own : rcv ).push_back( x ); adj.push_back( y ); bool in = true; for( long a : y ) in &= a < NS; nin += i < NS && in;
  }
  for( int i = 0; i < NS; i++ ) { ty.emplace_back(); for( int f = 0; f < NF; f++ ) ty.back().push_back( c.scTySf[i][f] ); }
  for( int v = 0; v < ( ND == 3 ? NVF : 1 ); v++ ) { ad.emplace_back(); for( int s = 0; s < NSF; s++ ) ad.back().push_back( c.scDgAd[v][s] ); }
  for( int f = 0; f < NF; f++ ) { fasc.emplace_back(); for( int s = 0; s < NSF; s++ ) fasc.back().push_back( c.faSfSc[f][s] ); }
#ifndef ISLINE
  static unsigned short l[NF][NSF][NVF], g[NF][NFSV]; edge::sc::SubGrid< EL, ORD >::faSg( c.scSv, l, g );
  for( int f = 0; f < NF; f++ ) { fr.emplace_back(); for( int s = 0; s < NFSV; s++ ) fr.back().push_back( id( g[f][s] ) ); fsv.emplace_back(); for( int s = 0; s < NSF; s++ ) { fsv.back().emplace_back(); for( int v = 0; v < NVF; v++ ) fsv.back().back().push_back( l[f][s][v] < NFSV ? id( g[f][l[f][s][v]] ) : -1 ); } }
#endif
  // operators: position in the raw data of an entry
  long bad = 0; for( int m = 0; m < NM; m++ ) for( int s = 0; s < NS; s++ ) bad += ( o.scatter[m][s] != m*NS+s ) + ( o.gather[s][m] != s*NM+m );
  for( int u = 0; u < NSU; u++ ) for( int m = 0; m < NM; m++ ) for( int s = 0; s < NSF; s++ ) bad += o.scatterSurf[u][m][s] != ( u*NM+m )*NSF+s;
  for( int f = 0; f < NF; f++ ) for( int s = 0; s < NSF; s++ ) for( int m = 0; m < NM; m++ ) bad += o.sfInt[f][s][m] != ( f*NSF+s )*NM+m;
  // closest sub-cell of a point: the vertices of sub-cells are closest to their barycentre for grids with one shape of sub-cells
  std::vector< long > pt; if( EL == LINE || EL == QUAD4R || EL == HEX8R ) { std::vector< unsigned short > q( NS*NV ); for( int i = 0; i < NS; i++ ) for( int v = 0; v < NV; v++ ) q[i*NV+v] = c.scSv[i][v];
    Rng r( 1 ); for( int i = 0; i < NS; i++ ) { double p[3] = {0}; for( int d = 0; d < ND; d++ ) { for( int v = 0; v < NV; v++ ) p[d] += sv[c.scSv[i][v]].coords[d]/NV; p[d] += r.range( -40, 40 )*0.01/N; } pt.push_back( edge::sc::SubGrid< EL, ORD >::ptSc( p, (unsigned short (*)[NV]) q.data(), sv ) ); } }
  Rec().s( "ty", TYNAME ).n( "deg", ORD-1 ).n( "n", N ).n( "nsf", NSF ).n( "nsc", NS ).n( "nin", nin ).n( "nsend", NS-nin ).n( "opsbad", bad ).aa( "sv", vs ).aa( "own", own ).aa( "recv", rcv ).aa( "adj", adj ).aa( "tysf", ty ).aa( "ad", ad )
    .aa( "fasc", fasc ).aa( "fr", fr ).raw( "fsv", js( fsv ) ).a( "pt", pt ).aa( "osf", empty ).aa( "rsf", empty ).raw( "isf", "[]" ).aa( "img", empty ).put();
  return 0;
}
