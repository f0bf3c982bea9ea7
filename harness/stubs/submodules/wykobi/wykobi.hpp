// Minimal stand-in for the (not available) wykobi submodule.
#ifndef VF_WYKOBI
#define VF_WYKOBI
#include <cmath>
namespace wykobi {
template< typename T, int N > struct pnt { T v[N]; T & operator[]( std::size_t i ) { return v[i]; } T const & operator[]( std::size_t i ) const { return v[i]; } pnt() { for( int i = 0; i < N; i++ ) v[i] = 0; } };
template< typename T > using point2d = pnt<T,2>;
template< typename T > using point3d = pnt<T,3>;
template< typename T, int N > struct triangle { pnt<T,N> p[3]; pnt<T,N> & operator[]( std::size_t i ) { return p[i]; } pnt<T,N> const & operator[]( std::size_t i ) const { return p[i]; } };
template< typename T, int N > T dot( pnt<T,N> const &a, pnt<T,N> const &b ) { T s = 0; for( int i = 0; i < N; i++ ) s += a[i]*b[i]; return s; }
template< typename T, int N > pnt<T,N> lin( pnt<T,N> const &a, T s, pnt<T,N> const &b ) { pnt<T,N> r; for( int i = 0; i < N; i++ ) r[i] = a[i]+s*b[i]; return r; }
template< typename T, int N > pnt<T,N> sub( pnt<T,N> const &a, pnt<T,N> const &b ) { return lin( a, T(-1), b ); }
template< typename T, int N > T distance( pnt<T,N> const &a, pnt<T,N> const &b ) { pnt<T,N> d = sub(a,b); return std::sqrt( dot(d,d) ); }
// Ericson, Real-Time Collision Detection, 5.1.5
template< typename T, int N > pnt<T,N> closest( triangle<T,N> const &t, pnt<T,N> const &p ) {
  pnt<T,N> a = t[0], b = t[1], c = t[2], ab = sub(b,a), ac = sub(c,a), ap = sub(p,a);
  T d1 = dot(ab,ap), d2 = dot(ac,ap); if( d1 <= 0 && d2 <= 0 ) return a;
  pnt<T,N> bp = sub(p,b); T d3 = dot(ab,bp), d4 = dot(ac,bp); if( d3 >= 0 && d4 <= d3 ) return b;
  T vc = d1*d4-d3*d2; if( vc <= 0 && d1 >= 0 && d3 <= 0 ) return lin( a, d1/(d1-d3), ab );
  pnt<T,N> cp = sub(p,c); T d5 = dot(ab,cp), d6 = dot(ac,cp); if( d6 >= 0 && d5 <= d6 ) return c;
  T vb = d5*d2-d1*d6; if( vb <= 0 && d2 >= 0 && d6 <= 0 ) return lin( a, d2/(d2-d6), ac );
  T va = d3*d6-d5*d4; if( va <= 0 && (d4-d3) >= 0 && (d5-d6) >= 0 ) return lin( b, (d4-d3)/((d4-d3)+(d5-d6)), sub(c,b) );
  if( N == 2 ) return p;
  T den = 1/(va+vb+vc); return lin( lin( a, vb*den, ab ), vc*den, ac );
}
template< typename T > point2d<T> closest_point_on_triangle_from_point( triangle<T,2> const &t, T x, T y ) { point2d<T> p; p[0] = x; p[1] = y; return closest( t, p ); }
template< typename T > point3d<T> closest_point_on_triangle_from_point( triangle<T,3> const &t, point3d<T> const &p ) { return closest( t, p ); }
template< typename T > T robust_cartesian_angle( T x, T y ) { T a = std::atan2( y, x )*T(180)/T(M_PI); return a < 0 ? a+360 : a; }
}
#endif
