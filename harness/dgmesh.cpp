// Writes meshes, as EDGE-V provides them to the solver, as text.  usage: dgmesh <dir> <seed> <type> <n plain> <n periodic> <max elements>
#include "meshgen.h"
#include "io/Gmsh.h"
#include "mesh/Mesh.h"
#include "io/logging.h"
INITIALIZE_EASYLOGGINGPP
using namespace edge_v;
static const t_idx MX = std::numeric_limits< t_idx >::max();
template< typename T > static void dump( char const * n, T const * p, size_t k ) { printf( "%s", n ); for( size_t i = 0; i < k; i++ ) if( p[i] == (T) std::numeric_limits< T >::max() ) printf( " -1" ); else printf( " %lld", (long long) p[i] ); printf( "\n" ); }
static void dumpd( char const * n, double const * p, size_t k ) { printf( "%s", n ); for( size_t i = 0; i < k; i++ ) printf( " %.17g", p[i] ); printf( "\n" ); }
int main( int argc, char ** argv ) {
  if( argc < 7 ) return 3;
  el::Configurations c; c.setToDefault(); c.setGlobally( el::ConfigurationType::ToStandardOutput, "false" ); c.setGlobally( el::ConfigurationType::ToFile, "false" ); el::Loggers::reconfigureAllLoggers( c );
  int ty = atoi( argv[3] ), nPl = atoi( argv[4] ), nPe = atoi( argv[5] ), maxEl = atoi( argv[6] );
  std::string path = std::string( argv[1] ) + "/d" + std::to_string( ty ) + ".msh";
  Rng r( atol( argv[2] )*733 + ty );
  for( int i = 0; i < nPl+nPe; ) {
    bool peri = i >= nPl;
    GMesh g = genMesh( r, ty, peri ? 1 : 0, maxEl );
    if( !g.uniq || (int) g.cells.size() < (ty == 1 || ty == 3 ? 8 : maxEl/3) ) continue;
    g.scale = 1; i++;
    writeMsh( g, path, r );
    io::Gmsh gm; gm.open( path ); gm.readMesh();
    mesh::Mesh m( gm, peri ? g.per : std::numeric_limits< int >::max() );
    size_t nE = m.nEls(), nF = ty == 0 ? 3 : ty == 3 ? 6 : 4;
    printf( "mesh %d %zu %zu %zu %d\n", g.D, (size_t) m.nVes(), (size_t) m.nFas(), nE, peri );
    dumpd( "crd", m.getVeCrds()[0], 3*m.nVes() );
    dump( "faEl", m.getFaEl(), 2*m.nFas() ); dump( "elVe", m.getElVe(), nE*g.nV ); dump( "elFa", m.getElFa(), nE*nF ); dump( "elFaEl", m.getElFaEl(), nE*nF );
    dumpd( "nrm", m.getNormalsFa()[0], 3*m.nFas() ); dumpd( "tan", m.getTangentsFa()[0][0], 6*m.nFas() ); dumpd( "area", m.getAreasFa(), m.nFas() ); dumpd( "vol", m.getVolumesEl(), nE );
    dump( "sp", m.getSpTypeFa(), m.nFas() );
    std::vector< unsigned short > fi( nE*nF, 65535 ), vi( nE*nF, 65535 );
    for( t_idx e = 0; e < nE; e++ ) for( unsigned short f = 0; f < nF; f++ ) if( m.getElFaEl()[e*nF+f] != MX ) { m.getFaIdsAd( 1, 0, &e, &f, &fi[e*nF+f] ); m.getVeIdsAd( 1, 0, &e, &f, &vi[e*nF+f] ); }
    dump( "fId", fi.data(), fi.size() ); dump( "vId", vi.data(), vi.size() );
  }
  return 0;
}
