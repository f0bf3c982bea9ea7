// Runs edge_v's Gmsh interface, Mesh, Partition on generated meshes; usage: mesh <dir> <seed> <type> <n plain> <n periodic> <n part>
#include <memory>
#include "meshgen.h"
#include "io/Gmsh.h"
#include "mesh/Mesh.h"
#include "mesh/Partition.h"
#include "mesh/Communication.h"
#include "io/logging.h"
INITIALIZE_EASYLOGGINGPP
using namespace edge_v;
static const t_idx MX = std::numeric_limits< t_idx >::max();
static long cv( t_idx v ) { return v == MX ? -1 : (v > 1000000 ? 999999 : (long) v); }
template< typename T > static std::string rows( T const * p, size_t n, size_t m ) {
  std::string s = "["; for( size_t i = 0; i < n; i++ ) { if( i ) s += ","; s += "["; for( size_t j = 0; j < m; j++ ) { if( j ) s += ","; s += std::to_string( cv( p[i*m+j] ) ); } s += "]"; } return s + "]";
}
static std::string frows( double const * p, size_t n, size_t m, double sc ) {
  std::string s = "["; for( size_t i = 0; i < n; i++ ) { if( i ) s += ","; s += "["; for( size_t j = 0; j < m; j++ ) { if( j ) s += ","; s += std::to_string( fix( p[i*m+j], sc ) ); } s += "]"; } return s + "]";
}
static std::string fs( double const * p, size_t n, double sc ) { std::vector< long > v; for( size_t i = 0; i < n; i++ ) v.push_back( fix( p[i], sc ) ); return Rec::arr( v ); }

static void inputs( Rec & rec, GMesh const & g ) {
  rec.s( "ty", (char const *[]){ "tria", "quad", "tet", "hex" }[g.ty] ).n( "D", g.D );
  std::vector< std::vector< int > > p; for( auto const & x : g.pts ) p.push_back( { x[0], x[1], x[2] } );
  rec.aa( "pts", p ).aa( "cells", g.cells );
  std::vector< std::vector< int > > tv; std::vector< int > tt; for( auto const & t : g.tf ) { tv.push_back( t.ves ); tt.push_back( t.tag ); }
  rec.a( "tfTag", tt ).aa( "tfVe", tv ).n( "per", g.per ).a( "perDims", g.perDims ).b( "uniq", g.uniq );
}
static bool crdExact( mesh::Mesh const & m, double scale ) { for( t_idx v = 0; v < m.nVes(); v++ ) for( int d = 0; d < 3; d++ ) if( !exact( m.getVeCrds()[v][d], 1/scale ) ) return false; return true; }
static void topo( Rec & rec, GMesh const & g, mesh::Mesh & m, std::string const & px ) {
  size_t nF = m.nElVes() == 8 ? 6 : (m.getTypeEl() == TRIA3 ? 3 : 4);
  size_t nFV = g.nFV;
  rec.b( (px+"crdEx").c_str(), crdExact( m, g.scale ) ).raw( (px+"crd").c_str(), frows( (double*) m.getVeCrds(), m.nVes(), 3, 1/g.scale ) );
  rec.raw( (px+"elVe").c_str(), rows( m.getElVe(), m.nEls(), m.nElVes() ) ).raw( (px+"faVe").c_str(), rows( m.getFaVe(), m.nFas(), nFV ) );
  rec.raw( (px+"faEl").c_str(), rows( m.getFaEl(), m.nFas(), 2 ) ).raw( (px+"elFa").c_str(), rows( m.getElFa(), m.nEls(), nF ) ).raw( (px+"elFaEl").c_str(), rows( m.getElFaEl(), m.nEls(), nF ) );
  std::vector< long > sp; for( t_idx f = 0; f < m.nFas(); f++ ) sp.push_back( (long) m.getSpTypeFa()[f] );
  rec.a( (px+"sp").c_str(), sp );
}

int main( int argc, char ** argv ) {
  if( argc < 7 ) return 3;
  el::Configurations c; c.setToDefault(); c.setGlobally( el::ConfigurationType::ToStandardOutput, "false" ); c.setGlobally( el::ConfigurationType::ToFile, "false" ); el::Loggers::reconfigureAllLoggers( c );
  std::string dir = argv[1]; int ty = atoi( argv[3] ), nPl = atoi( argv[4] ), nPe = atoi( argv[5] ), nPa = atoi( argv[6] );
  int maxEl = argc > 7 ? atoi( argv[7] ) : 40;
  std::string path = dir + "/m" + std::to_string( ty ) + ".msh";
  Rng r( atol( argv[2] )*131 + ty );
  for( int i = 0; i < nPl+nPe; i++ ) {
    bool peri = i >= nPl;
    GMesh g = !peri && i%5 == 4 && (ty == 0 || ty == 2) ? genSoup( r, ty ) : genMesh( r, ty, peri ? 1 : 0, peri ? (ty == 2 ? 54 : 45) : maxEl );
    writeMsh( g, path, r );
    io::Gmsh gm; gm.open( path ); gm.readMesh();
    mesh::Mesh m( gm, peri ? g.per : std::numeric_limits< int >::max() );
    size_t nF = ty == 0 ? 3 : ty == 3 ? 6 : 4;
    Rec rec; rec.s( "k", peri ? "per" : "mesh" ); inputs( rec, g ); topo( rec, g, m, "" );
    // adjacent faces' ids, queried in bulk with a random element offset
    std::vector< t_idx > el; std::vector< unsigned short > fa; std::vector< std::vector< long > > ad;
    if( g.uniq ) {
      t_idx off = r.below( m.nEls() );
      for( t_idx e = off; e < m.nEls(); e++ ) for( size_t f = 0; f < nF; f++ ) if( m.getElFaEl()[e*nF+f] != MX ) { el.push_back( e-off ); fa.push_back( f ); }
      std::vector< unsigned short > a( el.size()+1, 77 ), b( el.size()+1, 77 );
      m.getFaIdsAd( el.size(), off, el.data(), fa.data(), a.data() );
      m.getVeIdsAd( el.size(), off, el.data(), fa.data(), b.data() );
      for( size_t q = 0; q < el.size(); q++ ) ad.push_back( { (long)(el[q]+off), fa[q], a[q], b[q] } );
    }
    rec.aa( "ad", ad );
    double s1 = 1/g.scale, sv = g.D == 2 ? s1*s1 : s1*s1*s1, sa = g.D == 2 ? s1 : s1*s1;
    rec.raw( "vol", fs( m.getVolumesEl(), m.nEls(), sv*(g.D == 2 ? 2 : 6)*16 ) );
    rec.raw( "area", fs( m.getAreasFa(), m.nFas(), sa*(g.D == 2 ? 1 : 2)*256 ) );
    rec.raw( "dia", fs( m.getInDiasEl(), m.nEls(), s1*256 ) );
    rec.raw( "cen", frows( (double*) m.getCentroidsEl(), m.nEls(), 3, s1*g.nV*16 ) );
    rec.raw( "nrm", frows( (double*) m.getNormalsFa(), m.nFas(), 3, 1024 ) );
    rec.raw( "tan", frows( (double*) m.getTangentsFa(), m.nFas(), 6, 1024 ) );
    rec.put();
  }
  for( int i = 0; i < nPa; i++ ) {
    GMesh g = genMesh( r, ty, 2 | (r.coin( 1, 3 ) ? 1 : 0), 64 );
    int peri = g.per ? g.per : std::numeric_limits< int >::max();
    writeMsh( g, path, r );
    std::unique_ptr< io::Gmsh > gp( new io::Gmsh ); io::Gmsh & gm = *gp; gm.open( path ); gm.readMesh();
    mesh::Mesh m( gm, peri );
    unsigned short nTg = 1 + r.below( 4 );
    std::vector< unsigned short > tg( m.nEls() ); int sty = r.below( 3 );
    for( t_idx e = 0; e < m.nEls(); e++ ) tg[e] = sty == 0 ? r.below( nTg ) : sty == 1 ? (m.getVeCrds()[m.getElVe()[e*m.nElVes()]][0] > 2*g.scale ? nTg-1 : 0) : (nTg-1) - (r.coin( 1, 4 ) ? r.below( nTg ) : 0);
    Rec rec; rec.s( "k", "part" ); inputs( rec, g ); topo( rec, g, m, "" );
    mesh::Partition p( m, tg.data() );
    int nP = 1 + r.below( std::min< int >( 5, m.nEls()/2 ) );
    if( nP > 1 ) p.kWay( nP, 1+r.below(3) );
    rec.n( "nP", nP ).n( "nPas", p.nPas() ).a( "tg", tg ).a( "pa", p.getElPa(), m.nEls() ).a( "pr", p.getElPr(), m.nEls() ).a( "nPaEls", p.nPaEls(), nP );
    gm.reorder( p.getElPr() );
    // an intermediate write of the reordered mesh is what users keep
    bool viaFile = r.coin();
    if( viaFile ) { gm.write( path ); gp.reset(); io::Gmsh gn; gn.open( path ); gn.readMesh(); mesh::Mesh m2( gn, peri ); topo( rec, g, m2, "a_" ); rec.put(); }
    else { gm.readMesh(); mesh::Mesh m2( gm, peri ); topo( rec, g, m2, "a_" ); rec.put(); }
  }
  return 0;
}
