// Generator of small conforming meshes on an integer grid, written as MSH 2.2 files.
#ifndef VERIF_MESHGEN_H
#define VERIF_MESHGEN_H
#include "common.h"
#include <map>
#include <set>
#include <array>
#include <algorithm>
#include <fstream>
#include <functional>
typedef std::vector< int > VI;

struct GMesh {
  int ty = 0;                    // 0: tria3, 1: quad4r, 2: tet4, 3: hex8r
  int D = 2, nV = 3, nFV = 2;    // dimensions, vertices per element, vertices per face
  double scale = 1;
  std::vector< std::array< int, 3 > > pts;  // sorted by tag
  std::vector< long > tags;
  std::vector< VI > cells;       // gmsh's vertex order
  VI cellEnt;
  struct TF { int tag; int ent; VI ves; };
  std::vector< TF > tf;          // tagged faces
  int per = 0;                   // tag of the periodic faces or 0
  VI perDims;
  bool uniq = true;              // two elements share at most one face
};

static inline std::vector< VI > cellFaces( int ty, VI const & c ) {
  static const std::vector< VI > F[4] = {
    { {0,1},{1,2},{2,0} }, { {0,1},{1,2},{2,3},{3,0} },
    { {0,1,2},{0,1,3},{0,2,3},{1,2,3} },
    { {0,1,2,3},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7},{4,5,6,7} } };
  std::vector< VI > r;
  for( auto const & f : F[ty] ) { VI x; for( int v : f ) x.push_back( c[v] ); r.push_back( x ); }
  return r;
}
static inline VI sorted( VI v ) { std::sort( v.begin(), v.end() ); return v; }

// isolated, possibly very skewed triangles or tets
static inline GMesh genSoup( Rng & r, int ty ) {
  GMesh m; m.ty = ty; m.D = ty == 0 ? 2 : 3; m.nV = ty == 0 ? 3 : 4; m.nFV = ty == 0 ? 2 : 3;
  m.scale = (double[]){1,0.5,16}[r.below(3)];
  std::set< std::array< int, 3 > > used; int n = 1 + r.below( m.D == 2 ? 8 : 12 ), tries = 0; long tag = 0;
  while( (int) m.cells.size() < n && tries++ < 200 ) {
    std::vector< std::array< int, 3 > > p;
    while( (int) p.size() < m.nV ) { std::array< int, 3 > x = {{ (int) r.below( 6 )-2, (int) r.below( 6 ), m.D == 3 ? (int) r.below( 6 )-5 : 0 }}; if( used.count( x ) || std::count( p.begin(), p.end(), x ) ) { if( tries++ > 400 ) break; continue; } p.push_back( x ); }
    if( (int) p.size() < m.nV ) break;
    long e[3][3]; for( int a = 0; a < 3; a++ ) for( int d = 0; d < 3; d++ ) e[a][d] = a+1 < m.nV ? p[a+1][d]-p[0][d] : (d == 2 ? 1 : 0);
    if( e[0][0]*(e[1][1]*e[2][2]-e[1][2]*e[2][1])-e[0][1]*(e[1][0]*e[2][2]-e[1][2]*e[2][0])+e[0][2]*(e[1][0]*e[2][1]-e[1][1]*e[2][0]) == 0 ) continue;
    VI c; for( auto const & x : p ) { used.insert( x ); c.push_back( m.pts.size() ); m.pts.push_back( x ); tag += 1+r.below( 2 ); m.tags.push_back( tag ); }
    m.cells.push_back( c ); m.cellEnt.push_back( 1 );
  }
  for( auto const & c : m.cells ) for( auto const & f : cellFaces( ty, c ) ) if( r.coin( 1, 3 ) ) m.tf.push_back( { 105, 1050, f } );
  return m;
}

// opt: bit 0 periodic, bit 1 single volume entity and connected (needed for the reordering)
static inline GMesh genMesh( Rng & r, int ty, int opt, int maxEl ) {
  for(;;) {
    GMesh m; m.ty = ty; m.D = ty < 2 ? 2 : 3; m.nV = (int[]){3,4,4,8}[ty]; m.nFV = (int[]){2,2,3,4}[ty];
    bool peri = opt & 1, single = opt & 2;
    m.scale = (double[]){1,1,0.25,32}[r.below(4)];
    int n[3] = {1,1,0};
    for( int d = 0; d < m.D; d++ ) n[d] = 1 + r.below( m.D == 2 ? 5 : 3 );
    if( peri ) {
      for( int d = 0; d < m.D; d++ ) if( r.coin() ) m.perDims.push_back( d );
      if( m.perDims.empty() ) m.perDims.push_back( r.below( m.D ) );
      bool wide = r.coin( 4, 5 );
      for( int d : m.perDims ) { if( wide ) n[d] = std::max( n[d], 3 ); if( n[d] < 3 ) m.uniq = false; }
    }
    int per = (int[]){2,1,6,1}[ty], nz = m.D == 3 ? n[2] : 1;
    if( n[0]*n[1]*nz*per > maxEl || n[0]*n[1]*nz*per < 2 ) continue;
    bool simp = ty == 0 || ty == 2;
    // grid lines
    std::vector< VI > ln( 3 );
    for( int d = 0; d < 3; d++ ) { int x = r.range( -3, 2 ); if( d >= m.D ) x = 0; for( int i = 0; i <= n[d]; i++ ) { ln[d].push_back( x ); x += simp ? 4 : r.range( 1, 4 ); } }
    if( m.D == 2 ) ln[2] = VI{ 0 };
    int np[3] = { n[0]+1, n[1]+1, m.D == 3 ? n[2]+1 : 1 };
    auto id = [&]( int i, int j, int k ) { return (k*np[1]+j)*np[0]+i; };
    std::vector< std::array< int, 3 > > P( np[0]*np[1]*np[2] );
    std::map< std::array< int, 3 >, std::array< int, 3 > > jit;
    bool jitter = simp && r.coin( 4, 5 );
    for( int k = 0; k < np[2]; k++ ) for( int j = 0; j < np[1]; j++ ) for( int i = 0; i < np[0]; i++ ) {
      std::array< int, 3 > ix = {{ i, j, k }}, w = ix;
      for( int d : m.perDims ) if( w[d] == n[d] ) w[d] = 0;
      if( !jit.count( w ) ) for( int d = 0; d < 3; d++ ) jit[w][d] = (d < m.D && jitter) ? r.range( -1, 1 ) : 0;
      for( int d = 0; d < 3; d++ ) {
        bool bnd = d < m.D && ( ix[d] == 0 || ix[d] == n[d] );
        P[id(i,j,k)][d] = ln[d][ix[d]] + ( (bnd && peri) ? 0 : jit[w][d] );
      }
    }
    int fl[3] = { r.coin() ? 1 : 0, r.coin() ? 1 : 0, r.coin() ? 1 : 0 };
    std::vector< VI > cells;
    for( int k = 0; k < nz; k++ ) for( int j = 0; j < n[1]; j++ ) for( int i = 0; i < n[0]; i++ ) {
      int q[2][2][2];
      for( int a = 0; a < 2; a++ ) for( int b = 0; b < 2; b++ ) for( int c = 0; c < (m.D == 3 ? 2 : 1); c++ ) q[a][b][c] = id( i+a, j+b, k+c );
      if( ty == 0 ) {
        if( r.coin() ) { cells.push_back( { q[0][0][0], q[1][0][0], q[1][1][0] } ); cells.push_back( { q[0][0][0], q[1][1][0], q[0][1][0] } ); }
        else           { cells.push_back( { q[0][0][0], q[1][0][0], q[0][1][0] } ); cells.push_back( { q[1][0][0], q[1][1][0], q[0][1][0] } ); }
      }
      else if( ty == 1 ) cells.push_back( { q[0][0][0], q[1][0][0], q[1][1][0], q[0][1][0] } );
      else if( ty == 2 ) {
        int pm[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} };
        for( auto & p : pm ) {
          int c[3] = { fl[0], fl[1], fl[2] }; VI t{ q[c[0]][c[1]][c[2]] };
          for( int s = 0; s < 3; s++ ) { c[p[s]] ^= 1; t.push_back( q[c[0]][c[1]][c[2]] ); }
          cells.push_back( t );
        }
      }
      else cells.push_back( { q[0][0][0], q[1][0][0], q[1][1][0], q[0][1][0], q[0][0][1], q[1][0][1], q[1][1][1], q[0][1][1] } );
    }
    // random valid vertex orders of the elements
    for( auto & c : cells ) {
      if( simp ) r.shuffle( c );
      else if( ty == 1 ) { std::rotate( c.begin(), c.begin()+r.below(4), c.end() ); if( r.coin() ) std::reverse( c.begin(), c.end() ); }
      else {
        int ax[3] = {0,1,2}; VI o{0,1,2}; r.shuffle( o ); for( int d = 0; d < 3; d++ ) ax[d] = o[d];
        int f[3] = { (int) r.below(2), (int) r.below(2), (int) r.below(2) };
        VI t; static const int C[8][3] = { {0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1} };
        for( int v = 0; v < 8; v++ ) {
          int y[3]; for( int d = 0; d < 3; d++ ) y[ax[d]] = C[v][d] ^ f[d];
          for( int w = 0; w < 8; w++ ) if( C[w][0] == y[0] && C[w][1] == y[1] && C[w][2] == y[2] ) t.push_back( c[w] );
        }
        c = t;
      }
    }
    r.shuffle( cells );
    // drop elements
    if( !peri && !single && r.coin() ) { size_t k = std::max< size_t >( 2, cells.size() - r.below( cells.size()/2+1 ) ); if( k < cells.size() ) cells.resize( k ); }
    // validity: positive sizes (jitter)
    bool ok = true;
    for( auto const & c : cells ) {
      long e[3][3]; for( int a = 0; a < 3; a++ ) for( int d = 0; d < 3; d++ ) e[a][d] = (size_t) a+1 < c.size() ? P[c[a+1]][d]-P[c[0]][d] : 0;
      if( ty == 0 && e[0][0]*e[1][1]-e[0][1]*e[1][0] == 0 ) ok = false;
      if( ty == 2 && e[0][0]*(e[1][1]*e[2][2]-e[1][2]*e[2][1])-e[0][1]*(e[1][0]*e[2][2]-e[1][2]*e[2][0])+e[0][2]*(e[1][0]*e[2][1]-e[1][1]*e[2][0]) == 0 ) ok = false;
    }
    // overlap-free: the sizes of the elements have to add up to the one of the undisturbed ones (checked for the full simplex meshes)
    if( !ok ) continue;
    if( simp && jitter ) {   // orientation of the jittered element equals the one of the undisturbed element
      for( auto const & c : cells ) {
        auto det = [&]( bool und ) {
          long x[4][3]; for( int v = 0; v < m.nV; v++ ) for( int d = 0; d < 3; d++ ) { int ix[3] = { c[v]%np[0], (c[v]/np[0])%np[1], c[v]/(np[0]*np[1]) }; x[v][d] = und ? ln[d][ix[d]] : P[c[v]][d]; }
          long e[3][3]; for( int a = 0; a < 3; a++ ) for( int d = 0; d < 3; d++ ) e[a][d] = a+1 < m.nV ? x[a+1][d]-x[0][d] : (d == 2 && m.D == 2 ? 1 : 0);
          if( m.D == 2 ) return e[0][0]*e[1][1]-e[0][1]*e[1][0];
          return e[0][0]*(e[1][1]*e[2][2]-e[1][2]*e[2][1])-e[0][1]*(e[1][0]*e[2][2]-e[1][2]*e[2][0])+e[0][2]*(e[1][0]*e[2][1]-e[1][1]*e[2][0]);
        };
        if( (det( true ) > 0) != (det( false ) > 0) ) ok = false;
      }
      if( !ok ) continue;
    }
    // faces
    std::map< VI, int > cnt; std::map< VI, VI > ord;
    for( auto const & c : cells ) for( auto const & f : cellFaces( ty, c ) ) { cnt[sorted(f)]++; ord[sorted(f)] = f; }
    if( peri ) m.per = 106;
    int mode = r.below( 4 );
    int dim0 = r.below( 3 );
    bool twice = r.coin( 1, 4 );   // some faces carry two tags
    for( auto const & x : cnt ) {
      int tag = 0;
      bool onPer = false;
      if( peri ) for( int d : m.perDims ) for( int s = 0; s < 2; s++ ) {
        bool all = true; for( int v : x.first ) if( P[v][d] != ln[d][ s ? n[d] : 0 ] ) all = false;
        if( all && x.second == 1 ) onPer = true;
      }
      if( onPer ) tag = m.per;
      else if( x.second == 1 ) {
        if( mode == 0 ) tag = 0; else if( mode == 1 ) tag = 105; else tag = (int[]){ 0, 101, 101, 105 }[ r.below(4) ];
      }
      else if( mode >= 2 && r.coin( 1, 5 ) ) tag = 201 + (dim0 == 0 ? r.below(2) : 0);
      if( tag ) { VI f = ord[x.first]; if( r.coin() ) std::reverse( f.begin(), f.end() ); m.tf.push_back( { tag, tag*10 + (int) r.below( 2 ), f } ); if( twice && tag != m.per && r.coin( 1, 3 ) ) m.tf.push_back( { 518, 5180, f } ); }
    }
    { std::vector< GMesh::TF > t = m.tf; r.shuffle( t ); m.tf = t; }
    // compress, tag vertices
    std::set< int > used; for( auto const & c : cells ) used.insert( c.begin(), c.end() );
    VI us( used.begin(), used.end() ); if( r.coin( 3, 4 ) ) r.shuffle( us );
    std::map< int, int > nid; long tag = 0;
    for( size_t i = 0; i < us.size(); i++ ) { nid[us[i]] = i; tag += 1 + (r.coin( 1, 4 ) ? r.below( 3 ) : 0); m.tags.push_back( tag ); m.pts.push_back( P[us[i]] ); }
    for( auto & c : cells ) { for( int & v : c ) v = nid[v]; m.cells.push_back( c ); m.cellEnt.push_back( single || r.coin( 2, 3 ) ? 1 : 2 ); }
    if( !single && r.coin() ) for( int & e : m.cellEnt ) e = 1;
    for( auto & t : m.tf ) for( int & v : t.ves ) v = nid[v];
    return m;
  }
}

static inline void writeMsh( GMesh const & m, std::string const & path, Rng & r ) {
  std::ofstream o( path );
  o << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" << m.pts.size() << "\n";
  VI p; for( size_t i = 0; i < m.pts.size(); i++ ) p.push_back( i ); r.shuffle( p );
  o.precision( 17 );
  for( int v : p ) o << m.tags[v] << " " << m.pts[v][0]*m.scale << " " << m.pts[v][1]*m.scale << " " << m.pts[v][2]*m.scale << "\n";
  int et = (int[]){2,3,4,5}[m.ty], ft = (int[]){1,1,2,3}[m.ty];
  o << "$EndNodes\n$Elements\n" << m.tf.size()+m.cells.size() << "\n";
  long id = 1;
  bool facesFirst = r.coin( 3, 4 );
  auto fs = [&]() { for( auto const & t : m.tf ) { o << id++ << " " << ft << " 2 " << t.tag << " " << t.ent; for( int v : t.ves ) o << " " << m.tags[v]; o << "\n"; } };
  if( facesFirst ) fs();
  for( size_t c = 0; c < m.cells.size(); c++ ) { o << id++ << " " << et << " 2 " << m.cellEnt[c] << " " << m.cellEnt[c]; for( int v : m.cells[c] ) o << " " << m.tags[v]; o << "\n"; }
  if( !facesFirst ) fs();
  o << "$EndElements\n";
}
#endif
