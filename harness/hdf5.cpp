// Driver of edge_v::io::Hdf5: seeded sequences of create, group, set, get, size, exists, close and re-open on two files.
#include "common.h"
#include "io/Hdf5.h"
#include "io/logging.h"
#include <map>
#include <set>
#include <cstring>
#include <memory>
INITIALIZE_EASYLOGGINGPP
using edge_v::t_idx;
typedef edge_v::io::Hdf5 H;

// values as text: equality of the text is equality of the bits
template< typename T > static std::string txt( T v ) { unsigned char b[sizeof(T)]; memcpy( b, &v, sizeof(T) ); std::string s; char h[4]; for( size_t i = sizeof(T); i-- > 0; ) { snprintf( h, 4, "%02x", b[i] ); s += h; } return s; }
template< typename T > static std::string txts( std::vector< T > const & v ) { std::string s = "["; for( size_t i = 0; i < v.size(); i++ ) { if( i ) s += ","; s += "\"" + txt( v[i] ) + "\""; } return s + "]"; }
static uint64_t bits( Rng & r ) { return r.next(); }
static void val( Rng & r, unsigned short & v ) { static unsigned short const s[] = { 0, 1, 65535, 65534, 32767, 32768, 255, 256 }; v = r.coin() ? s[r.below( 8 )] : bits( r ); }
static void val( Rng & r, t_idx & v ) { static t_idx const s[] = { 0, 1, 4294967295ull, 4294967296ull, 2147483648ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull, 18446744073709551614ull }; int k = r.below( 4 ); v = k == 0 ? s[r.below( 9 )] : k == 1 ? bits( r ) : k == 2 ? bits( r ) >> 33 : r.below( 100 ); }
template< typename T, typename U > static void fval( Rng & r, T & v ) {
  int k = r.below( 5 ); typedef std::numeric_limits< T > L;
  T s[] = { 0, T(-0.0), 1, -1, L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), L::epsilon() };
  if( k == 0 ) v = s[r.below( 11 )]; else if( k == 1 ) v = r.range( -1000, 1000 ); else if( k == 2 ) v = T( r.range( -1000000, 1000000 ) )/T( 7 );
  else do { U b = bits( r ); memcpy( &v, &b, sizeof(T) ); } while( v != v );
}
static void val( Rng & r, float & v ) { fval< float, uint32_t >( r, v ); }
static void val( Rng & r, double & v ) { fval< double, uint64_t >( r, v ); }

static char const * const TY[4] = { "ushort", "idx", "float", "double" };
template< typename T > static std::string doSet( Rng & r, H & h, std::string const & name, int n ) {
  std::vector< T > v( n+1 ); for( auto & x : v ) val( r, x );
  h.set( name, n, v.data() ); v.pop_back(); return txts( v );
}
template< typename T > static std::string doGet( H & h, std::string const & name, t_idx n ) {
  unsigned char fill = 0xAB; std::vector< T > v( n+2 ); memset( (void*) v.data(), fill, sizeof(T)*v.size() );
  std::vector< T > g = v;
  h.get( name, v.data()+1 );
  bool guard = memcmp( &v[0], &g[0], sizeof(T) ) == 0 && memcmp( &v[n+1], &g[n+1], sizeof(T) ) == 0;
  std::vector< T > w( v.begin()+1, v.end()-1 );
  return std::string( guard ? "1" : "0" ) + ",\"v\":" + txts( w );
}

int main( int argc, char ** argv ) {
  std::string dir = argv[1]; uint64_t seed = atoll( argv[2] ); int n0 = atoi( argv[3] ), n1 = atoi( argv[4] );
  for( int c = n0; c < n1; c++ ) {
    Rng r( seed*100003 + c );
    struct F { std::string path; std::unique_ptr< H > h; bool ro = true, made = false; std::vector< std::string > groups, names; std::map< std::string, std::pair< int, int > > ty; } fs[2];
    fs[0].path = dir + "/a.h5"; fs[1].path = dir + "/b.h5";
    std::string ev = "["; bool first = true;
    auto log = [&]( int f, std::string const & op, std::string const & name, std::string const & rest ) {
      if( !first ) ev += ","; first = false; ev += "{\"f\":" + std::to_string( f ) + ",\"op\":\"" + op + "\",\"name\":\"" + name + "\"" + rest + "}"; };
    int nOps = r.range( 10, 60 );
    static int const sizes[] = { 0, 1, 2, 3, 7, 10, 33, 64, 65, 200 };
    for( int s = 0; s < nOps; s++ ) {
      int f = r.below( 2 ); F & x = fs[f];
      if( !x.h ) {
        bool ro = x.made && r.coin( 2, 3 );
        x.h.reset( new H( x.path, ro ) ); x.ro = ro;
        if( !ro ) { x.groups = { "" }; x.names.clear(); x.ty.clear(); x.made = true; }
        log( f, ro ? "open" : "create", "", "" ); continue;
      }
      int a = r.below( 12 );
      if( a == 0 ) { x.h.reset(); log( f, "close", "", "" ); }
      else if( a <= 2 && !x.ro ) {
        std::string g = r.pick( x.groups ) + "/g" + std::to_string( r.below( 4 ) );
        bool dup = false; for( auto & y : x.groups ) dup |= y == g;
        if( dup || g.size() > 12 ) continue;
        x.h->createGroup( g ); x.groups.push_back( g ); log( f, "group", g, "" );
      }
      else if( a <= 6 && !x.ro ) {
        std::string nm = r.pick( x.groups ) + "/d" + std::to_string( r.below( 6 ) );
        if( x.ty.count( nm ) ) continue;
        int ty = r.below( 4 ), n = r.coin( 1, 40 ) ? r.range( 500, 3000 ) : sizes[ r.below( 10 ) ];
        std::string v = ty == 0 ? doSet< unsigned short >( r, *x.h, nm, n ) : ty == 1 ? doSet< t_idx >( r, *x.h, nm, n ) : ty == 2 ? doSet< float >( r, *x.h, nm, n ) : doSet< double >( r, *x.h, nm, n );
        x.ty[nm] = { ty, n }; x.names.push_back( nm );
        log( f, "set", nm, ",\"ty\":\"" + std::string( TY[ty] ) + "\",\"v\":" + v );
      }
      else if( a <= 7 ) {
        std::string nm = r.pick( x.groups ) + ( r.coin( 2, 3 ) ? "/d" : "/g" ) + std::to_string( r.below( 6 ) );
        log( f, "exists", nm, ",\"res\":" + std::string( x.h->exists( nm ) ? "1" : "0" ) );
      }
      else if( !x.names.empty() ) {
        std::string nm = r.pick( x.names );
        t_idx n = x.h->nVas( nm );
        log( f, "size", nm, ",\"res\":" + std::to_string( n > 1000000 ? 1000000 : n ) );
        if( n == (t_idx) x.ty[nm].second ) {
          int ty = x.ty[nm].first;
          std::string v = ty == 0 ? doGet< unsigned short >( *x.h, nm, n ) : ty == 1 ? doGet< t_idx >( *x.h, nm, n ) : ty == 2 ? doGet< float >( *x.h, nm, n ) : doGet< double >( *x.h, nm, n );
          log( f, "get", nm, ",\"ty\":\"" + std::string( TY[ty] ) + "\",\"guard\":" + v );
        }
      }
    }
    Rec o; o.n( "case", c ).raw( "ev", ev + "]" ); o.put();
  }
  return 0;
}
