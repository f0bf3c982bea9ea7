// Minimal stand-in for the (not available) exprtk submodule: statements "name := expr;", "name[i] := expr;", arithmetic,
// comparisons, and/or, if(c,a,b), if(c) {..} else {..}, a few functions.
#ifndef VF_EXPRTK
#define VF_EXPRTK
#include <cmath>
#include <cctype>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include <utility>
namespace exprtk {
namespace parser_error { struct tokenT { std::size_t position; }; struct type { tokenT token; int mode; std::string diagnostic; }; inline std::string to_str( int ) { return "syntax"; } }
template< typename T > struct symbol_table {
  std::map< std::string, T* > vars; std::map< std::string, std::pair< T*, std::size_t > > vecs; std::map< std::string, T > cons;
  bool add_variable( std::string const &n, T &v ) { vars[n] = &v; return true; }
  bool add_vector( std::string const &n, T *v, std::size_t s ) { vecs[n] = std::make_pair( v, s ); return true; }
  bool add_constants() { cons["pi"] = T(M_PI); cons["epsilon"] = T(1e-10); return true; }
};
template< typename T > struct expression { symbol_table<T> const *st = nullptr; symbol_table<T> own; std::string txt; void register_symbol_table( symbol_table<T> const &s ) { own = s; } T value() const; };
template< typename T > struct interp {
  symbol_table<T> const &st; const char *p; bool run; std::string err; std::map< std::string, T > loc;
  interp( symbol_table<T> const &s, const char *c, bool r ): st(s), p(c), run(r) {}
  void ws() { while( true ) { while( isspace( (unsigned char) *p ) ) p++; if( p[0] == '/' && p[1] == '/' ) { while( *p && *p != '\n' ) p++; continue; } if( p[0] == '/' && p[1] == '*' ) { while( *p && !(p[0]=='*' && p[1]=='/') ) p++; if( *p ) p += 2; continue; } break; } }
  void fail( const char *m ) { if( err.empty() ) err = m; while( *p ) p++; }
  bool lit( const char *s ) { ws(); std::size_t n = 0; while( s[n] ) { if( p[n] != s[n] ) return false; n++; } if( isalpha( (unsigned char) s[0] ) && (isalnum( (unsigned char) p[n] ) || p[n] == '_') ) return false; p += n; return true; }
  std::string ident() { ws(); std::string r; while( isalnum( (unsigned char) *p ) || *p == '_' ) r += *p++; return r; }
  void block( bool on ) { bool s = run; run = run && on; if( lit( "{" ) ) { while( *p ) { if( lit( "}" ) ) break; stmt(); } } else stmt(); run = s; }
  void stmt() {
    ws(); if( *p == ';' ) { p++; return; } if( !*p ) return;
    const char *s = p;
    if( lit( "if" ) ) {
      if( lit( "(" ) ) { T c = orE(); if( lit( ")" ) ) { block( c != 0 ); bool el = lit( "else" ); if( el ) block( c == 0 ); lit( ";" ); return; } }
      p = s;
    }
    if( lit( "var" ) ) { std::string n = ident(); if( !lit( ":=" ) ) { fail( "var" ); return; } T v = orE(); loc[n] = v; lit( ";" ); return; }
    if( isalpha( (unsigned char) *p ) ) {
      std::string n = ident(); T *dst = nullptr; std::size_t all = 1; bool isLoc = false;
      typename std::map< std::string, std::pair< T*, std::size_t > >::const_iterator iv = st.vecs.find( n );
      if( iv != st.vecs.end() ) { dst = iv->second.first; all = iv->second.second; if( lit( "[" ) ) { T i = orE(); if( !lit( "]" ) ) { fail( "]" ); return; } if( run && (i < 0 || i >= all) ) { fail( "index" ); return; } dst += (run ? (std::size_t) i : 0); all = 1; } }
      else if( st.vars.count( n ) ) dst = st.vars.find( n )->second;
      else if( loc.count( n ) ) { dst = &loc[n]; isLoc = true; }
      if( lit( ":=" ) ) { if( !dst ) { fail( "unknown target" ); return; } T v = orE(); if( run ) for( std::size_t i = 0; i < all; i++ ) dst[i] = v; (void) isLoc; lit( ";" ); return; }
      p = s;
    }
    orE(); lit( ";" );
  }
  T orE() { T a = andE(); while( lit( "or" ) ) { T b = andE(); a = (a != 0 || b != 0); } return a; }
  T andE() { T a = cmp(); while( lit( "and" ) ) { T b = cmp(); a = (a != 0 && b != 0); } return a; }
  T cmp() { T a = add(); while( true ) { if( lit( "<=" ) ) a = a <= add(); else if( lit( ">=" ) ) a = a >= add(); else if( lit( "==" ) ) a = a == add(); else if( lit( "!=" ) ) a = a != add(); else if( lit( "<" ) ) a = a < add(); else if( lit( ">" ) ) a = a > add(); else return a; } }
  T add() { T a = mul(); while( true ) { if( lit( "+" ) ) a = a+mul(); else if( lit( "-" ) ) a = a-mul(); else return a; } }
  T mul() { T a = una(); while( true ) { if( lit( "*" ) ) a = a*una(); else if( lit( "/" ) ) a = a/una(); else return a; } }
  T una() { if( lit( "-" ) ) return -una(); if( lit( "+" ) ) return una(); return pw(); }
  T pw() { T a = prim(); if( lit( "^" ) ) a = std::pow( a, una() ); return a; }
  T prim() {
    ws();
    if( lit( "(" ) ) { T a = orE(); if( !lit( ")" ) ) fail( ")" ); return a; }
    if( isdigit( (unsigned char) *p ) || *p == '.' ) { char *e; T v = std::strtod( p, &e ); p = e; return v; }
    if( isalpha( (unsigned char) *p ) ) {
      std::string n = ident();
      if( st.vecs.count( n ) ) { std::pair< T*, std::size_t > v = st.vecs.find( n )->second; if( !lit( "[" ) ) { fail( "vector" ); return 0; } T i = orE(); if( !lit( "]" ) ) fail( "]" ); if( !run || i < 0 || i >= v.second ) return 0; return v.first[(std::size_t) i]; }
      if( st.vars.count( n ) ) return *st.vars.find( n )->second;
      if( loc.count( n ) ) return loc[n];
      if( st.cons.count( n ) ) return st.cons.find( n )->second;
      if( lit( "(" ) ) {
        std::vector< T > a; if( !lit( ")" ) ) { do a.push_back( orE() ); while( lit( "," ) ); if( !lit( ")" ) ) { fail( "call" ); return 0; } }
        a.resize( 3 );
        if( n == "if" ) return a[0] != 0 ? a[1] : a[2]; if( n == "sin" ) return std::sin(a[0]); if( n == "cos" ) return std::cos(a[0]); if( n == "exp" ) return std::exp(a[0]); if( n == "sqrt" ) return std::sqrt(a[0]);
        if( n == "abs" ) return std::fabs(a[0]); if( n == "min" ) return a[0] < a[1] ? a[0] : a[1]; if( n == "max" ) return a[0] > a[1] ? a[0] : a[1]; if( n == "pow" ) return std::pow(a[0],a[1]); if( n == "log" ) return std::log(a[0]); if( n == "floor" ) return std::floor(a[0]);
      }
      fail( "unknown symbol" ); return 0;
    }
    fail( "syntax" ); return 0;
  }
};
template< typename T > T expression<T>::value() const { interp<T> i( own, txt.c_str(), true ); while( true ) { i.ws(); if( !*i.p ) break; i.stmt(); } return 0; }
template< typename T > struct parser {
  std::string m_e;
  bool compile( std::string const &s, expression<T> &e ) { e.txt = s; interp<T> i( e.own, e.txt.c_str(), false ); while( true ) { i.ws(); if( !*i.p ) break; i.stmt(); } m_e = i.err; return m_e.empty(); }
  std::size_t error_count() const { return m_e.empty() ? 0 : 1; }
  parser_error::type get_error( std::size_t ) const { parser_error::type t; t.token.position = 0; t.mode = 0; t.diagnostic = m_e; return t; }
  std::string error() const { return m_e; }
};
}
#endif
