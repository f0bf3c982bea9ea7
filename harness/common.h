// Helpers of all drivers: deterministic random numbers and JSON records on stdout.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <limits>

struct Rng {
  uint64_t s;
  explicit Rng( uint64_t i_seed ) : s( i_seed*0x9E3779B97F4A7C15ull + 0x1234567ull ) { for( int i = 0; i < 8; i++ ) next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s*0x2545F4914F6CDD1Dull; }
  // uniform in [0, n)
  uint64_t below( uint64_t n ) { return n == 0 ? 0 : (next() >> 11) % n; }
  int64_t range( int64_t a, int64_t b ) { return a + (int64_t) below( (uint64_t)(b-a+1) ); }
  bool coin( int a = 1, int b = 2 ) { return (int) below( b ) < a; }
  template< typename T > void shuffle( std::vector< T > & v ) { for( size_t i = v.size(); i > 1; i-- ) std::swap( v[i-1], v[below(i)] ); }
  template< typename T > T pick( std::vector< T > const & v ) { return v[ below( v.size() ) ]; }
};

// one JSON object, fields in insertion order
class Rec {
  std::string m_s = "{";
  void key( char const * k ) { if( m_s.size() > 1 ) m_s += ","; m_s += "\""; m_s += k; m_s += "\":"; }
public:
  template< typename T > static std::string num( T v ) { return std::to_string( (long long) v ); }
  template< typename T > static std::string arr( std::vector< T > const & v ) { std::string r = "["; for( size_t i = 0; i < v.size(); i++ ) { if( i ) r += ","; r += num( v[i] ); } return r + "]"; }
  template< typename T > static std::string arr( T const * v, size_t n ) { return arr( std::vector< T >( v, v+n ) ); }
  template< typename T > static std::string arr2( std::vector< std::vector< T > > const & v ) { std::string r = "["; for( size_t i = 0; i < v.size(); i++ ) { if( i ) r += ","; r += arr( v[i] ); } return r + "]"; }
  Rec & raw( char const * k, std::string const & v ) { key( k ); m_s += v; return *this; }
  template< typename T > Rec & n( char const * k, T v ) { return raw( k, num( v ) ); }
  Rec & b( char const * k, bool v ) { return raw( k, v ? "true" : "false" ); }
  Rec & s( char const * k, std::string const & v ) { return raw( k, "\"" + v + "\"" ); }
  template< typename T > Rec & a( char const * k, std::vector< T > const & v ) { return raw( k, arr( v ) ); }
  template< typename T > Rec & a( char const * k, T const * v, size_t n ) { return raw( k, arr( v, n ) ); }
  template< typename T > Rec & aa( char const * k, std::vector< std::vector< T > > const & v ) { return raw( k, arr2( v ) ); }
  std::string str() const { return m_s + "}"; }
  void put() const { std::string l = str() + "\n"; fwrite( l.data(), 1, l.size(), stdout ); }
};

static const int64_t SAT = 1000000000ll; // saturation: TLC integers have 32 bits
// nearest integer of v*scale; anything non-finite or out of range saturates to a value no relation accepts
static inline int64_t fix( double v, double scale ) {
  double x = v*scale;
  if( !(std::fabs(x) < (double) SAT) ) return x < 0 ? -SAT : SAT;
  return (int64_t) std::llround( x );
}
// 1 if v*scale is an exact integer (and representable)
static inline bool exact( double v, double scale ) { double x = v*scale; return std::fabs(x) < (double) SAT && x == std::floor( x ); }
#endif
