// Driver of EDGEcut's extrusion: the class on string streams and the program on files.
// usage: extrude <seed> <n> <n program> <edge_cut binary> <scratch directory>
#include <algorithm>
#include <array>
#include <fstream>
#include <iomanip>
#include <map>
#include "io/logging.hpp"
#include "mesh/Extrude.h"
#include "common.h"
INITIALIZE_EASYLOGGINGPP
typedef std::vector< std::vector< long > > VV; typedef std::array< double, 3 > P3;
struct Off { long hv = -1, hf = -1, nv = 0, nf = 0; bool ok = true; std::vector< P3 > p; VV t; };
static Off parse( std::string const & s ) {
  Off o; std::istringstream in( s ); std::string l; std::vector< std::string > v; bool first = true;
  while( std::getline( in, l ) ) { if( first ) { o.ok &= l == "OFF"; first = false; continue; } size_t a = l.find_first_not_of( " \t" ); if( a == std::string::npos || l[a] == '#' ) continue; v.push_back( l ); }
  if( v.empty() ) { o.ok = false; return o; }
  { std::istringstream h( v[0] ); long e; if( !( h >> o.hv >> o.hf >> e ) ) o.ok = false; }
  // a reader believes the header: the first hv lines are points, the others facets
  for( size_t i = 1; i < v.size(); i++ ) { std::istringstream x( v[i] ); std::vector< std::string > w; std::string k; while( x >> k ) w.push_back( k );
    if( w.size() == 3 ) { o.nv++; o.p.push_back( { strtod( w[0].c_str(), nullptr ), strtod( w[1].c_str(), nullptr ), strtod( w[2].c_str(), nullptr ) } ); if( o.nf ) o.ok = false; }
    else if( w.size() == 4 && w[0] == "3" ) { o.nf++; o.t.push_back( { atol( w[1].c_str() ), atol( w[2].c_str() ), atol( w[3].c_str() ) } ); } else o.ok = false; }
  return o;
}
int main( int, char ** argv ) {
  el::Configurations c; c.setToDefault(); c.setGlobally( el::ConfigurationType::ToStandardOutput, "false" ); c.setGlobally( el::ConfigurationType::ToFile, "false" ); el::Loggers::reconfigureAllLoggers( c );
  Rng r( atol( argv[1] ) ); int n = atoi( argv[2] ), m = atoi( argv[3] ); std::string bin = argv[4], dir = argv[5];
  for( int it = 0; it < n+m; it++ ) {
    bool prog = it >= n; int L = it % 4 == 3 ? 2 : it % 2; long ra = 1 << L, room = L == 0 ? 1 : L == 1 ? 4 : 12;
    long nx = 1+ra*( ( room+ra-1 )/ra+r.range( 0, L == 0 ? 7 : L == 1 ? 3 : 2 ) ), ny = 1+ra*( ( room+ra-1 )/ra+r.range( 0, L == 0 ? 7 : L == 1 ? 3 : 2 ) );
    // coordinates: small (default precision of streams suffices) or large as geographic projections
    bool big = prog || r.coin(); int st = r.below( 3 ); double dx = st == 0 ? 1 : st == 1 ? 2.5 : 0.5, dy = r.coin() ? dx : dx*2, x0 = big ? 423123.0+r.range( 0, 999999 )/7.0 : r.range( -20, 20 ), y0 = big ? 3716800.0+r.range( 0, 999999 )/13.0 : r.range( -20, 20 );
    if( big && r.coin() ) { dx = 10.0/3; dy = 29.7; }
    std::vector< double > xs( nx ), ys( ny ); for( long i = 0; i < nx; i++ ) xs[i] = x0+i*dx; for( long i = 0; i < ny; i++ ) ys[i] = y0+i*dy;
    if( r.coin( 1, 4 ) ) for( long i = 1; i < nx; i++ ) if( big ) xs[i] += dx*r.range( 0, 20 )/100.0;     // graded
    double amp = r.coin( 1, 4 ) ? 0 : std::min( dx, dy )*2, zt = big ? -std::min( dx, dy )*ra*r.range( 30, 60 )/11.0-1017.3 : -( std::min( dx, dy )*ra*r.range( 2, 8 ) ), z0 = big ? -1017.3+4*amp : 0;
    std::vector< std::vector< double > > z( nx, std::vector< double >( ny ) ); for( auto & a : z ) for( auto & b : a ) b = z0+( big ? amp*r.range( 0, 10000 )/10000.0 : std::floor( amp*r.range( 0, 100 )/100.0*8 )/8 );
    std::vector< P3 > in; for( long i = 0; i < nx; i++ ) for( long j = 0; j < ny; j++ ) in.push_back( { xs[i], ys[j], z[i][j] } ); if( !r.coin( 1, 4 ) ) r.shuffle( in );
    std::string out[6]; static char const * nm[6] = { "left", "right", "front", "back", "bottom", "top" };
    if( !prog ) {
      std::ostringstream o[6]; if( big ) for( auto & x : o ) x.precision( 17 );
      { std::vector< double > flat; for( auto & p : in ) for( double d : p ) flat.push_back( d ); edge_cut::mesh::Extrude e( in.size(), (double (*)[3]) flat.data(), zt, L ); std::fill( flat.begin(), flat.end(), -7 ); e.writeOff( o[0], o[1], o[2], o[3], o[4], o[5] ); }
      for( int i = 0; i < 6; i++ ) out[i] = o[i].str();
    } else {
      { std::ofstream g( dir+"/grid.txt" ); g << std::setprecision( 17 ); for( auto & p : in ) g << p[0] << " " << p[1] << " " << p[2] << "\n"; }
      { std::ofstream x( dir+"/c.xml" ); x << std::setprecision( 17 ) << "<edge_cut><extrude><in>" << dir << "/grid.txt</in><target_z>" << zt << "</target_z><n_levels>" << L << "</n_levels></extrude><mesh><files><out>"; for( auto k : nm ) x << "<" << k << ">" << dir << "/" << k << ".off</" << k << ">"; x << "</out></files></mesh></edge_cut>\n"; }
      for( auto k : nm ) std::remove( ( dir+"/"+k+".off" ).c_str() );
      int rc = std::system( ( "cd "+dir+" && "+bin+" -x "+dir+"/c.xml > "+dir+"/log 2>&1" ).c_str() ); if( rc ) { fprintf( stderr, "edge_cut: exit status %d\n", rc ); }
      for( int i = 0; i < 6; i++ ) { std::ifstream f( dir+"/"+nm[i]+".off" ); std::stringstream s; s << f.rdbuf(); out[i] = s.str(); }
    }
    Off o[6]; std::map< P3, long > id; VV pts, tri[6], vid; std::vector< long > hd;
    std::map< double, long > xi, yi; for( long i = 0; i < nx; i++ ) xi[xs[i]] = i; for( long i = 0; i < ny; i++ ) yi[ys[i]] = i;
    for( int i = 0; i < 6; i++ ) { o[i] = parse( out[i] ); std::vector< long > loc;
      for( auto & p : o[i].p ) { auto f = id.find( p ); if( f == id.end() ) { long k = id.size()+1; f = id.insert( { p, k } ).first; long a = xi.count( p[0] ) ? xi[p[0]] : -1, b = yi.count( p[1] ) ? yi[p[1]] : -1; double s = a >= 0 && b >= 0 ? z[a][b] : 0; pts.push_back( { a, b, p[2] == zt ? 0 : a >= 0 && b >= 0 && p[2] == s ? 1 : p[2] > zt && p[2] < s ? 2 : 3 } ); } loc.push_back( f->second ); }
      for( auto & t : o[i].t ) { tri[i].emplace_back(); for( long k : t ) tri[i].back().push_back( k >= 0 && k < (long) loc.size() ? loc[k] : 0 ); }
      vid.push_back( loc ); hd.insert( hd.end(), { o[i].ok, o[i].hv, o[i].nv, o[i].hf, o[i].nf } ); }
    Rec e; e.n( "prog", prog ).n( "nx", nx ).n( "ny", ny ).n( "L", L ).n( "big", big ).a( "hd", hd ).aa( "pts", pts ).aa( "vid", vid ); for( int i = 0; i < 6; i++ ) e.aa( nm[i], tri[i] ); e.put();
  }
  return 0;
}
