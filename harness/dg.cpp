// Runs complete time steps of the seismic ADER-DG solver (plain and with two rates) on meshes from EDGE-V (dgmesh.cpp) with operators from EDGEpre.
// usage: dg <mesh file> <seed> <n steps per mesh> <n random per mesh> <n kernels>; compiled per element type, order, number of fused runs and relaxation mechanisms
#include <fstream>
#include <cstring>
#include <sstream>
#include "common.h"
#include "constants.hpp"
#include "io/logging.h"
// polynomials instead of parsed expressions: compile() gets the number of the lane's polynomial
typedef std::vector< long > V; typedef std::vector< V > VV; typedef std::vector< VV > VVV;
struct Poly { double F, x0[3], rho; VVV q; bool poison; double bad; };
static std::vector< Poly > g_polys;
#define EDGE_DATA_EXPRESSION_HPP
namespace edge { namespace data {
template< typename T > struct Expression {
  T * c = nullptr, * q = nullptr; int d = 0, n = 0; Poly const * p = nullptr;
  void bindCrds( T * i_c, unsigned short i_d ) { c = i_c; d = i_d; }
  void bind( std::string const &, T * i_q, std::size_t i_n ) { q = i_q; n = i_n; }
  void compile( std::string const & s ) { p = &g_polys[ atoi( s.c_str() ) ]; }
  void eval() {
    for( int i = 0; i < n; i++ ) {
      double v = 0;
      for( V const & m : p->q[i] ) { double t = m[0]; for( int k = 0; k < d; k++ ) for( int e = 0; e < m[1+k]; e++ ) t *= p->F*(c[k]-p->x0[k]); v += t; }
      if( i >= n-d ) v /= p->rho;
      q[i] = p->poison ? p->bad : v;
    }
  }
};
} }
#include "parallel/global.h"
#include "data/Dynamic.h"
#include "dg/Basis.h"
#include "dg/QuadraturePoints.h"
#include "io/Receivers.h"
#include "impl/seismic/solvers/AderDg.hpp"
#include "impl/seismic/setups/Elasticity.h"
#include "impl/seismic/setups/ViscoElasticity.h"
#include "setups/InitialDofs.hpp"
INITIALIZE_EASYLOGGINGPP
static const t_entityType EL = T_SDISC.ELEMENT;
static const int D = C_ENT[EL].N_DIM, NV = C_ENT[EL].N_VERTICES, NF = C_ENT[EL].N_FACES, NQ = N_QUANTITIES, QM = CE_N_QTS_M( C_ENT[EL].N_DIM ), MD = N_ELEMENT_MODES, CR = N_CRUNS, RM = N_RELAXATION_MECHANISMS, O = ORDER;
static const int_el MX = std::numeric_limits< int_el >::max();
typedef edge::seismic::solvers::AderDg< real_base, RM, EL, ORDER, ORDER, CR, false > Solver;
typedef real_base Dofs[NQ][MD][CR]; typedef real_base Row[MD][CR];

struct Mesh {
  int per; size_t nV, nF, nE; std::vector< t_vertexChars > ve; std::vector< t_faceChars > fa; std::vector< t_elementChars > el; std::vector< double > vol; V sp;
  std::vector< int_el > faEl, elVe, elFa, elFaEl; std::vector< unsigned short > fId, vId;
};
static std::vector< double > row( std::istream & i, char const * n ) { std::string l; std::getline( i, l ); std::istringstream s( l ); std::string k; s >> k; if( k != n ) exit( 3 ); std::vector< double > r; double x; while( s >> x ) r.push_back( x ); return r; }
template< typename T > static std::vector< T > ids( std::vector< double > const & v ) { std::vector< T > r; for( double x : v ) r.push_back( x < 0 ? std::numeric_limits< T >::max() : (T) x ); return r; }
static bool load( std::istream & i, Mesh & m ) {
  std::string l; if( !std::getline( i, l ) ) return false;
  int d; char k[8]; if( sscanf( l.c_str(), "%7s %d %zu %zu %zu %d", k, &d, &m.nV, &m.nF, &m.nE, &m.per ) != 6 || d != D ) exit( 3 );
  std::vector< double > c = row( i, "crd" ); m.ve.resize( m.nV ); for( size_t v = 0; v < m.nV; v++ ) { for( int x = 0; x < 3; x++ ) m.ve[v].coords[x] = c[v*3+x]; m.ve[v].spType = 0; }
  m.faEl = ids< int_el >( row( i, "faEl" ) ); m.elVe = ids< int_el >( row( i, "elVe" ) ); m.elFa = ids< int_el >( row( i, "elFa" ) ); m.elFaEl = ids< int_el >( row( i, "elFaEl" ) );
  std::vector< double > n = row( i, "nrm" ), t = row( i, "tan" ), a = row( i, "area" ); m.vol = row( i, "vol" ); std::vector< double > s = row( i, "sp" ); m.sp = V( s.begin(), s.end() );
  m.fId = ids< unsigned short >( row( i, "fId" ) ); m.vId = ids< unsigned short >( row( i, "vId" ) );
  m.fa.resize( m.nF ); for( size_t f = 0; f < m.nF; f++ ) { m.fa[f].area = a[f]; for( int x = 0; x < 3; x++ ) { m.fa[f].outNormal[x] = n[f*3+x]; m.fa[f].tangent0[x] = t[f*6+x]; m.fa[f].tangent1[x] = t[f*6+3+x]; } }
  m.el.resize( m.nE ); for( size_t e = 0; e < m.nE; e++ ) { m.el[e].volume = m.vol[e]; m.el[e].inDia = 1; }
  return true;
}

// state of one simulation: everything the solver's caller owns
struct Sim {
  Mesh & m; edge::data::Dynamic dyn; std::vector< int > g; std::vector< t_bgPars > bg; Solver * s = nullptr; std::vector< Dofs > dofs; std::vector< std::array< Row, QM > > dofsA;
  std::vector< Dofs > t[3]; std::vector< real_base (*)[MD][CR] > p[3]; std::vector< real_base (*)[N_FACE_MODES][CR] > send; edge::io::Receivers recv;
  Sim( Mesh & i_m, Rng & r, bool lts, int bnd ): m( i_m ), g( i_m.nE, 0 ), dofs( i_m.nE ), dofsA( i_m.nE*(RM ? RM : 1) ), send( i_m.nE*NF, nullptr ) {
    if( lts ) for( auto & x : g ) x = r.below( 2 );
    for( size_t f = 0; f < m.nF; f++ ) m.fa[f].spType = (m.sp[f] & 106) == 106 && m.per ? (int_spType) PERIODIC : 0;
    for( size_t e = 0; e < m.nE; e++ ) {
      m.el[e].spType = 0;
      for( int f = 0; f < NF; f++ ) {
        int_el n = m.elFaEl[e*NF+f]; int a = n == MX ? g[e] : g[n];
        if( n == MX ) m.fa[ m.elFa[e*NF+f] ].spType = bnd == 0 || (bnd == 1 && r.coin()) ? (int_spType) FREE_SURFACE : (int_spType) OUTFLOW;
        m.el[e].spType |= C_LTS_AD[f][ g[e] == a ? AD_EQ : g[e] < a ? AD_LT : AD_GT ] | C_LTS_EL[ g[e] == a ? EL_INT_EQ : g[e] < a ? EL_INT_LT : EL_INT_GT ];
      }
    }
    for( int k = 0; k < 3; k++ ) { t[k].resize( m.nE ); for( size_t e = 0; e < m.nE; e++ ) { for( int i = 0; i < NQ*MD*CR; i++ ) (&t[k][e][0][0][0])[i] = NAN; p[k].push_back( k == 0 || (m.el[e].spType & C_LTS_EL[ k == 1 ? EL_INT_LT : EL_INT_GT ]) == C_LTS_EL[ k == 1 ? EL_INT_LT : EL_INT_GT ] ? t[k][e] : nullptr ); } }
  }
  void setup( bool hasA ) {
    s = new Solver( (int_el) m.nE, (int_el) 0, (int_el) m.nF, (int_el) 0, (unsigned short *) nullptr, (int_el *) nullptr, (int_el (*)[2]) m.faEl.data(), (int_el (*)[NV]) m.elVe.data(), (int_el (*)[NF]) m.elFa.data(), m.ve.data(), m.fa.data(), m.el.data(), bg.data(), (t_bgPars *) nullptr, 1.0, 100.0, dyn );
    if( !hasA ) for( auto & a : dofsA ) for( int i = 0; i < QM*MD*CR; i++ ) (&a[0][0][0])[i] = 0;
  }
  void loc( int grp, bool first, double time, double dt ) {
    for( size_t e = 0; e < m.nE; e++ ) if( g[e] == grp ) s->local( (int_el) e, (int_el) 1, first, time, dt, (int_el) 0, m.el.data(), (unsigned short (*)[NF]) m.vId.data(), dofs.data(), (Row *) dofsA.data(), ptrs(), send.data(), recv );
  }
  real_base (* const * const * ptrs())[MD][CR] { pp[0] = p[0].data(); pp[1] = p[1].data(); pp[2] = p[2].data(); return pp; }
  real_base (* const * pp[3])[MD][CR];
  void nei( int grp, bool first ) {
    for( size_t e = 0; e < m.nE; e++ ) if( g[e] == grp ) s->neigh( (int_el) e, (int_el) 1, first, m.fa.data(), m.el.data(), (int_el (*)[NF]) m.elFa.data(), (int_el (*)[NF]) m.elFaEl.data(), (unsigned short (*)[NF]) m.fId.data(), (unsigned short (*)[NF]) m.vId.data(), ptrs(), dofs.data(), (Row *) dofsA.data(), (real_base const (* const *)[N_FACE_MODES][CR]) nullptr );
  }
  // one step of the elements with the large time step
  void cycle( bool lts, double dt ) {
    loc( 0, true, 0, dt ); if( lts ) loc( 1, true, 0, 2*dt );
    nei( 0, true );
    if( lts ) { loc( 0, false, dt, dt ); nei( 0, false ); nei( 1, true ); }
  }
  ~Sim() { delete s; }
};
static double val( Dofs const & d, int q, int c, double const * xi ) { double v = 0; for( int b = 0; b < MD; b++ ) v += d[q][b][c]*edge::dg::Basis::evalBasis( b, EL, xi[0], xi[1], xi[2], -1, O ); return v; }
static std::vector< std::array< int, 3 > > lattice( int F ) {
  std::vector< std::array< int, 3 > > r; bool sim = EL == TRIA3 || EL == TET4;
  for( int k = 0; k <= (D == 3 ? F : 0); k++ ) for( int j = 0; j <= F; j++ ) for( int i = 0; i <= F; i++ ) if( !sim || i+j+k <= F ) r.push_back( {{ i, j, k }} );
  return r;
}
static std::string vvv( VVV const & x ) { std::string s = "["; for( size_t i = 0; i < x.size(); i++ ) { if( i ) s += ","; s += Rec::arr2( x[i] ); } return s + "]"; }

int main( int argc, char ** argv ) {
  el::Configurations conf; conf.setGlobally( el::ConfigurationType::Enabled, "false" ); el::Loggers::reconfigureAllLoggers( conf );
  if( argc < 6 ) return 3;
  std::ifstream in( argv[1] ); long seed = atol( argv[2] ); int nS = atoi( argv[3] ), nR = atoi( argv[4] ), nK = atoi( argv[5] );
  edge::parallel::g_scratchMem = (t_scratchMem *) aligned_alloc( 4096, (sizeof( t_scratchMem )/4096+1)*4096 );
  edge::dg::Basis basis( EL, O );
  Mesh m; long cs = 0; const int F = O > 1 ? O-1 : 1; static const int off[3] = { 1, EL == QUAD4R || EL == HEX8R ? 3 : 2, EL == HEX8R ? 4 : 3 };
  double bads[4] = { NAN, INFINITY, 1e300, -INFINITY };
  while( load( in, m ) ) {
    // polynomial solutions in homogeneous material
    for( int n = 0; n < nS && !m.per; n++, cs++ ) {
      Rng r( seed*7919+cs*31+EL ); bool lts = r.coin(); Sim S( m, r, lts, 1 );
      long rho = 1+r.below(2), cl = 1+r.below(3), cm = 1+r.below(2), dm = O > 3 ? 1 : 1+r.below(3);
      t_bgPars b; b.rho = rho; b.lam = cl*rho; b.mu = cm*rho; b.qp = 120; b.qs = 40; S.bg.assign( m.nE, b );
      int_el v0 = m.elVe[ r.below( m.nE )*NV+r.below( NV ) ]; double x0[3]; for( int d = 0; d < 3; d++ ) x0[d] = m.ve[v0].coords[d];
      g_polys.clear(); std::string str[CR]; int good = r.below( CR );
      for( int c = 0; c < CR; c++ ) {
        Poly p; p.F = F; for( int d = 0; d < 3; d++ ) p.x0[d] = x0[d]; p.rho = rho; p.poison = c != good && r.coin(); p.bad = bads[r.below(4)]; p.q.resize( NQ );
        for( int q = 0; q < NQ; q++ ) for( int k = r.below( 4 ); k > 0; k-- ) { V mo( 4, 0 ); int top = O > 3 ? 1 : 3; mo[0] = r.range( -top, top ); if( mo[0] == 0 ) mo[0] = 1; int deg = r.coin( 1, 3 ) ? O-1 : (int) r.below( O ); for( int e = 0; e < deg; e++ ) mo[1+r.below( D )]++; p.q[q].push_back( mo ); }
        g_polys.push_back( p );
      }
      for( int c = 0; c < CR; c++ ) str[c] = std::to_string( c );
      edge::setups::InitialDofs< EL, ORDER, N_QUANTITIES, CR >::dg( (int_el) 0, (int_el) m.nE, str, basis, (int_el (*)[NV]) m.elVe.data(), m.ve.data(), S.dofs.data() );
      std::vector< Dofs > ini( m.nE ); memcpy( ini.data(), S.dofs.data(), sizeof( Dofs )*m.nE );
      S.setup( false );
      // candidates: all faces have neighbours, all vertices are close to the origin
      std::vector< size_t > js;
      for( size_t e = 0; e < m.nE && js.size() < (D == 3 ? 6 : 8); e++ ) { bool ok = true; for( int f = 0; f < NF; f++ ) ok &= m.elFaEl[e*NF+f] != MX; for( int v = 0; v < NV; v++ ) for( int d = 0; d < D; d++ ) ok &= std::fabs( m.ve[ m.elVe[e*NV+v] ].coords[d]-x0[d] ) <= 6; if( ok ) js.push_back( e ); }
      if( js.empty() ) continue;
      S.cycle( lts, (lts ? 0.5 : 1.0)/dm );
      double sc = 1; for( int k = 1; k < O; k++ ) sc *= dm*k;
      auto lat = lattice( F );
      for( int c = 0; c < CR; c++ ) if( !g_polys[c].poison ) {
        VVV X, v, w;
        for( size_t e : js ) {
          VV xe, ve( NQ ), we( NQ );
          for( auto const & l : lat ) {
            double xi[3] = { l[0]/(double) F, l[1]/(double) F, l[2]/(double) F }; V x;
            for( int d = 0; d < D; d++ ) { double a = m.ve[ m.elVe[e*NV] ].coords[d], y = F*(a-x0[d]); for( int k = 0; k < D; k++ ) y += l[k]*(m.ve[ m.elVe[e*NV+off[k]] ].coords[d]-a); x.push_back( std::lround( y ) ); }
            xe.push_back( x );
            for( int q = 0; q < NQ; q++ ) { double f = q >= NQ-D ? rho : 1; ve[q].push_back( fix( val( S.dofs[e], q, c, xi )*f, sc ) ); we[q].push_back( fix( val( ini[e], q, c, xi )*f, 1 ) ); }
          }
          X.push_back( xe ); v.push_back( ve ); w.push_back( we );
        }
        Rec rec; rec.s( "k", "step" ).n( "D", D ).n( "O", O ).n( "F", F ).n( "cl", cl ).n( "cm", cm ).n( "m", dm ).b( "lts", lts ).n( "nl", CR ).n( "lane", c ).raw( "q", vvv( g_polys[c].q ) ).raw( "X", vvv( X ) ).raw( "v", vvv( v ) ).raw( "w", vvv( w ) );
        rec.put();
      }
    }
    // arbitrary data, arbitrary materials: conservation, and fused runs
    for( int n = 0; n < nR; n++, cs++ ) {
      Rng r( seed*104729+cs*17+EL*3 ); bool lts = r.coin(); Sim S( m, r, lts, 0 ); double dt = 1/16.0;
      static const long L3[3][2] = { {2,1},{4,2},{10,1} }, L2[4][2] = { {1,1},{3,1},{2,2},{6,2} };
      VV mat; for( size_t e = 0; e < m.nE; e++ ) { long const * l = D == 3 ? L3[r.below(3)] : L2[r.below(4)]; long rho = 1+r.below(3); mat.push_back( { rho, l[0], l[1] } ); t_bgPars b; b.rho = rho; b.lam = l[0]; b.mu = l[1]; b.qp = 120+r.below(20); b.qs = 40+r.below(20); S.bg.push_back( b ); }
      // data sets of the lanes: by number, independent of the number of lanes
      V ds; int good = r.below( CR ); Rng rl( seed*13+cs*7+CR*1009 );
      for( int c = 0; c < CR; c++ ) ds.push_back( rl.below( 3 ) ); good = rl.below( CR );
      std::vector< bool > bad( CR ); for( int c = 0; c < CR; c++ ) bad[c] = c != good && rl.coin( 1, 3 );
      for( int c = 0; c < CR; c++ ) {
        Rng rd( seed*31+cs*101+ds[c] ); double bv = bads[rl.below(4)];
        for( size_t e = 0; e < m.nE; e++ ) for( int q = 0; q < NQ; q++ ) for( int b = 0; b < MD; b++ ) { double x = rd.range( -64, 64 )/64.0; S.dofs[e][q][b][c] = bad[c] ? bv : x; }
        for( auto & a : S.dofsA ) for( int q = 0; q < QM; q++ ) for( int b = 0; b < MD; b++ ) { double x = rd.range( -64, 64 )/64.0; a[q][b][c] = bad[c] ? bv : x; }
      }
      std::vector< Dofs > ini( m.nE ); memcpy( ini.data(), S.dofs.data(), sizeof( Dofs )*m.nE );
      S.setup( true ); S.cycle( lts, dt );
      Rng rp( seed*5+cs*3 ); VV pk; for( int k = 0; k < 24; k++ ) pk.push_back( { (long) rp.below( m.nE ), (long) rp.below( NQ+(RM ? RM*QM : 0) ), (long) rp.below( MD ) } );
      std::vector< double > q[3], we; double ref[3][NV] = {}; for( int v = 0; v < NV; v++ ) for( int d = 0; d < D; d++ ) ref[d][v] = C_REF_ELEMENT.VE.ENT[EL][d*NV+v];
      edge::dg::QuadraturePoints::getQpts( EL, O+1, ref[0], q[0], q[1], q[2], we );
      double rv = 0; for( double x : we ) rv += x;
      for( int c = 0; c < CR; c++ ) if( !bad[c] ) {
        VV p, a, s;   // per element: change of the integrals of velocities, moments of velocities, stresses
        for( size_t e = 0; e < m.nE; e++ ) {
          double up[3] = {}, mo[3] = {}, st[6] = {};
          Dofs df; for( int i = 0; i < NQ*MD*CR; i++ ) (&df[0][0][0])[i] = 0; for( int i = 0; i < NQ; i++ ) for( int b = 0; b < MD; b++ ) df[i][b][c] = S.dofs[e][i][b][c]-ini[e][i][b][c];
          for( size_t k = 0; k < we.size(); k++ ) {
            double xi[3] = { q[0][k], q[1][k], D == 3 ? q[2][k] : 0 }, x[3], u[3], w = we[k]/rv*m.vol[e];
            for( int d = 0; d < D; d++ ) { double y0 = m.ve[ m.elVe[e*NV] ].coords[d]; x[d] = y0; for( int j = 0; j < D; j++ ) x[d] += xi[j]*(m.ve[ m.elVe[e*NV+off[j]] ].coords[d]-y0); u[d] = val( df, NQ-D+d, c, xi ); up[d] += w*u[d]; }
            if( D == 2 ) mo[0] += w*(x[0]*u[1]-x[1]*u[0]); else for( int d = 0; d < 3; d++ ) mo[d] += w*(x[(d+1)%3]*u[(d+2)%3]-x[(d+2)%3]*u[(d+1)%3]);
            for( int i = 0; i < NQ-D; i++ ) st[i] += w*val( df, i, c, xi );
          }
          V x, y, z; for( int d = 0; d < D; d++ ) x.push_back( fix( up[d], 1e4 ) ); for( int d = 0; d < (D == 2 ? 1 : 3); d++ ) y.push_back( fix( mo[d], 1e3 ) ); for( int i = 0; i < NQ-D; i++ ) z.push_back( fix( st[i], 1e3 ) );
          p.push_back( x ); a.push_back( y ); s.push_back( z );
        }
        // directions in which the mesh is periodic have no boundary
        bool closed = true; for( size_t i = 0; i < m.nE*NF; i++ ) if( m.elFaEl[i] == MX ) closed = false;
        Rec rec; rec.s( "k", "cons" ).n( "D", D ).n( "O", O ).n( "rms", RM ).b( "per", m.per ).b( "closed", closed ).b( "lts", lts ).n( "nl", CR ).n( "lane", c ).aa( "mat", mat ).aa( "p", p ).aa( "a", a ).aa( "s", s ); rec.put();
        V o; for( V const & k : pk ) o.push_back( fix( k[1] < NQ ? S.dofs[k[0]][k[1]][k[2]][c] : S.dofsA[ k[0]*RM+(k[1]-NQ)/QM ][ (k[1]-NQ)%QM ][k[2]][c], 1e6 ) );
        Rec f; f.s( "k", "lane" ).n( "case", cs ).n( "nl", CR ).n( "lane", c ).n( "ds", ds[c] ).b( "oth", std::count( bad.begin(), bad.end(), true ) > 0 ).a( "out", o ); f.put();
      }
    }
  }
  // time predictions of single elements
  for( int n = 0; n < nK; n++ ) {
    Rng r( seed*15485863+n*37+EL ); edge::data::Dynamic dyn;
    double rfs[RM+1]; for( int i = 0; i < RM; i++ ) rfs[i] = (1+r.below(4))/2.0;
    edge::seismic::kernels::TimePredVanilla< real_base, RM, EL, ORDER, ORDER, CR > T( RM ? rfs : nullptr, dyn );
    double ji[D][D]; for( int i = 0; i < D; i++ ) for( int j = 0; j < D; j++ ) ji[i][j] = r.range( -4, 4 )/4.0;
    double sE[D][CE_N_ENS_STAR_E_DE( C_ENT[EL].N_DIM )], sA[D][CE_N_ENS_STAR_A_DE( C_ENT[EL].N_DIM )], src[RM+1][CE_N_ENS_SRC_A_DE( C_ENT[EL].N_DIM )], lE, mE;
    edge::seismic::setups::Elasticity::star( 1, 1, 0.5, ji, sE );
    edge::seismic::setups::ViscoElasticity::star( ji, sA );
    for( int i = 0; i < RM; i++ ) for( auto & x : src[i] ) x = r.range( -4, 4 )/8.0;
    static Dofs d, tmp, t, h, der[ORDER], der2[ORDER], ev[3]; static real_base dA[RM+1][QM][MD][CR], derA[RM+1][ORDER][QM][MD][CR], derA2[RM+1][ORDER][QM][MD][CR], tA[RM+1][QM][MD][CR], rA[RM+1][QM][MD][CR];
    for( int i = 0; i < NQ*MD*CR; i++ ) { (&d[0][0][0])[i] = r.range( -64, 64 )/64.0; for( int k = 0; k < O; k++ ) (&der[k][0][0][0])[i] = (&der2[k][0][0][0])[i] = NAN; (&tmp[0][0][0])[i] = (&t[0][0][0])[i] = (&h[0][0][0])[i] = (&ev[0][0][0][0])[i] = NAN; }
    for( auto & a : dA ) for( int i = 0; i < QM*MD*CR; i++ ) (&a[0][0][0])[i] = r.range( -64, 64 )/64.0;
    double dt = 1/8.0; int j = 1+r.below( 7 );
    T.ck( dt, sE, RM ? sA : nullptr, RM ? src : nullptr, d, RM ? dA : nullptr, tmp, der, RM ? derA : nullptr, t, RM ? tA : nullptr );
    T.integrate( dt/2, der, h );
    real_base pts[3] = { 0, dt*j/8, dt }; T.evalTimePrediction( 3, pts, der, ev );
    // prediction of the first derivative
    for( int i = 0; i < RM; i++ ) memcpy( rA[i], derA[i][1%ORDER], sizeof( rA[i] ) );
    static Dofs t2; if( O > 1 ) T.ck( dt, sE, RM ? sA : nullptr, RM ? src : nullptr, der[1%ORDER], RM ? rA : nullptr, tmp, der2, RM ? derA2 : nullptr, t2, RM ? tA+0 : nullptr );
    if( O > 1 && RM ) { static Dofs x; T.ck( dt, sE, sA, src, d, dA, tmp, der, derA, x, tA ); }
    VV E; double sc = 2e5;
    for( int k = 0; k < 24; k++ ) {
      int q = r.below( NQ ), b = r.below( MD ), c = r.below( CR ); V e, y; double f = 1;
      for( int o = 0; o < O; o++, f *= dt ) { e.push_back( fix( der[o][q][b][c]*f, sc ) ); }
      e.push_back( fix( t[q][b][c]/dt, sc ) ); e.push_back( fix( h[q][b][c]/dt*2, sc ) ); for( int i = 0; i < 3; i++ ) e.push_back( fix( ev[i][q][b][c], sc ) );
      f = dt; for( int o = 0; o+1 < O; o++, f *= dt ) e.push_back( fix( der2[o][q][b][c]*f, sc ) );
      E.push_back( e );
    }
    VV A; for( int k = 0; k < 8 && RM; k++ ) { int l = r.below( RM ), q = r.below( QM ), b = r.below( MD ), c = r.below( CR ); V e; double f = 1; for( int o = 0; o < O; o++, f *= dt ) e.push_back( fix( derA[l][o][q][b][c]*f, sc ) ); e.push_back( fix( tA[l][q][b][c]/dt, sc ) ); A.push_back( e ); }
    Rec rec; rec.s( "k", "ck" ).n( "O", O ).n( "rms", RM ).n( "j", j ).aa( "E", E ).aa( "A", A ); rec.put();
  }
  return 0;
}
