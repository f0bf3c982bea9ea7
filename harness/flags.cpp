// Driver of edge::mesh::EdgeV: direct calls of setLtsTypes, and the way from a global mesh over the partitions' files.
// usage: flags <dir> <seed> <n direct> <n pipe> <type>
#include <memory>
#include <numeric>
#include <tuple>
#include "meshgen.h"
#include "constants.hpp"
#include "mesh/EdgeV.h"
#include "parallel/global.h"
#include "tools/edge_v/src/io/Gmsh.h"
#include "tools/edge_v/src/io/Hdf5.h"
#include "tools/edge_v/src/mesh/Mesh.h"
#include "tools/edge_v/src/mesh/Communication.h"
#include "io/logging.h"
INITIALIZE_EASYLOGGINGPP
typedef std::size_t SZ; typedef long long LL;
static const SZ MX = std::numeric_limits< SZ >::max();
static long cv( SZ v ) { return v == MX ? -1 : v > 1000000 ? 999999 : (long) v; }
static long us( unsigned short v ) { return v == 65535 ? -1 : v; }
typedef std::vector< std::vector< long > > VV;
static LL eqlt( int i ) { return C_LTS_EL[ (int[]){ EL_INT_EQ, EL_INT_LT, EL_INT_GT }[i] ]; }
static LL adm( int f, int i ) { return C_LTS_AD[f][ (int[]){ AD_EQ, AD_LT, AD_GT }[i] ]; }
// decodes the types; pre: bits which were there before
static bool decode( LL v, LL pre, int nF, std::vector< long > & fl, long & el ) {
  LL known = 0; el = 0; fl.assign( nF, 0 );
  for( int i = 0; i < 3; i++ ) { if( (v & eqlt( i )) == eqlt( i ) ) { el |= 1 << i; known |= eqlt( i ); } for( int f = 0; f < nF; f++ ) if( (v & adm( f, i )) == adm( f, i ) ) { fl[f] |= 1 << i; known |= adm( f, i ); } }
  return v == ( pre | known ) ;
}
static void direct( Rng & r ) {
  int nF = r.pick( std::vector< int >{ 2, 3, 4, 6 } ), nT = r.range( 1, 5 ), N = r.range( 1, 30 );
  std::vector< SZ > nIn( nT ), nSe( nT ); std::vector< int > tg;
  for( int e = 0; e < N; e++ ) ( r.coin() ? nIn : nSe )[ r.below( nT ) ]++;
  if( r.coin( 1, 4 ) ) { for( int t = 0; t < nT; t++ ) { nIn[t] += nSe[t]; nSe[t] = 0; } }
  for( int t = 0; t < nT; t++ ) for( SZ i = 0; i < nIn[t]; i++ ) tg.push_back( t );
  int fSe = tg.size();
  for( int t = 0; t < nT; t++ ) for( SZ i = 0; i < nSe[t]; i++ ) tg.push_back( t );
  VV adj( N, std::vector< long >( nF, -1 ) ); std::vector< SZ > a( N*nF, MX );
  for( int e = 0; e < N; e++ ) for( int f = 0; f < nF; f++ ) if( r.coin( 2, 3 ) ) { int n = r.below( N ); if( abs( tg[n]-tg[e] ) <= 1 ) { adj[e][f] = n; a[e*nF+f] = n; } }
  // channels: faces of send elements, sorted by (group, rank, remote group)
  std::vector< std::tuple< int, int, int, int, int > > cf; int nR = r.range( 1, 3 );
  for( int e = fSe; e < N; e++ ) for( int f = 0; f < nF; f++ ) if( adj[e][f] < 0 && r.coin( 2, 3 ) ) { int ta = tg[e]+r.range( -1, 1 ); if( ta >= 0 && ta < nT ) cf.push_back( std::make_tuple( tg[e], r.below( nR ), ta, e, f ) ); }
  std::sort( cf.begin(), cf.end() );
  VV chs; std::vector< SZ > se( cf.size() ); std::vector< unsigned short > sf( cf.size() );
  for( size_t i = 0; i < cf.size(); i++ ) {
    int g, p, q, e, f; std::tie( g, p, q, e, f ) = cf[i];
    if( chs.empty() || chs.back()[0] != g || chs.back()[1] != p || chs.back()[2] != q ) chs.push_back( { g, p, q, 0 } );
    chs.back()[3]++; se[i] = e; sf[i] = f;
  }
  std::vector< SZ > st{ chs.size() }; for( auto & c : chs ) for( long x : c ) st.push_back( x );
  LL eqs[6], lts[6], gts[6]; for( int f = 0; f < 6; f++ ) { eqs[f] = adm( f, 0 ); lts[f] = adm( f, 1 ); gts[f] = adm( f, 2 ); }
  std::vector< LL > ty( N ), pre( N ); for( auto & t : pre ) t = r.coin() ? (LL) r.below( 1u << 31 ) : 0; ty = pre;
  bool none = cf.empty() && r.coin();
  edge::mesh::EdgeV::setLtsTypes( N, nF, a.data(), nT, nIn.data(), nSe.data(), none ? nullptr : sf.data(), none ? nullptr : se.data(), none ? nullptr : st.data(), eqlt( 0 ), eqlt( 1 ), eqlt( 2 ), eqs, lts, gts, ty.data() );
  VV fl( N ); std::vector< long > el( N ); bool keep = true;
  for( int e = 0; e < N; e++ ) keep &= decode( ty[e], pre[e], nF, fl[e], el[e] );
  Rec o; o.s( "k", "direct" ).aa( "adj", adj ).a( "nIn", nIn ).a( "nSe", nSe ).aa( "chs", chs ).a( "se", se ).a( "sf", sf ).aa( "fl", fl ).a( "el", el ).n( "keep", keep ).put();
}
static bool pipe( Rng & r, int ty, std::string const & dir ) {
  GMesh g = genMesh( r, ty, 2, 40 ); if( !g.uniq ) return false;
  std::string path = dir + "/g.msh"; writeMsh( g, path, r );
  int nF = (int[]){ 3, 4, 4, 6 }[ty];
  // partitions and time groups on the mesh as it is read
  int N = 0, nT = r.range( 1, 4 ), nP = 1; std::vector< SZ > pr; std::vector< int > paS, tgS;
  {
    edge_v::io::Gmsh gm; gm.open( path ); gm.readMesh(); edge_v::mesh::Mesh m( gm, std::numeric_limits< int >::max() );
    N = m.nEls(); nP = r.range( 1, std::min( 4, N/2 ) );
    std::vector< int > tg( N ), pa( N );
    for( int e = 0; e < N; e++ ) { tg[e] = r.below( nT ); pa[e] = r.coin() ? r.below( nP ) : e*nP/N; }
    bool ch = true; while( ch ) { ch = false; for( int e = 0; e < N; e++ ) for( int f = 0; f < nF; f++ ) { SZ n = m.getElFaEl()[e*nF+f]; if( n != MX && tg[e] > tg[n]+1 ) { tg[e] = tg[n]+1; ch = true; } } }
    std::vector< int > has( nP, 0 ), snd( N, 0 );
    for( int e = 0; e < N; e++ ) for( int f = 0; f < nF; f++ ) { SZ n = m.getElFaEl()[e*nF+f]; if( n != MX && pa[n] != pa[e] ) { snd[e] = 1; has[pa[e]] = 1; } }
    if( nP > 1 ) for( int h : has ) if( !h ) return false;
    std::vector< int > o( N ); std::iota( o.begin(), o.end(), 0 );
    std::stable_sort( o.begin(), o.end(), [&]( int a, int b ) { return std::make_tuple( pa[a], snd[a], tg[a] ) < std::make_tuple( pa[b], snd[b], tg[b] ); } );
    pr.resize( N ); for( int i = 0; i < N; i++ ) { pr[o[i]] = i; paS.push_back( pa[o[i]] ); tgS.push_back( tg[o[i]] ); }
    std::vector< edge_v::t_idx > p( pr.begin(), pr.end() ); gm.reorder( p.data() ); gm.write( path );
  }
  Rec o; o.s( "k", "pipe" ).s( "ty", (char const *[]){ "tria", "quad", "tet", "hex" }[ty] ).n( "nTg", nT ).a( "gTg", tgS );
  struct PaData { std::vector< SZ > st, se, re, nIn, nSe; std::vector< unsigned short > sf, rf, idF, idV; };
  std::vector< PaData > pd( nP ); std::vector< SZ > nPaEls( nP ); VV gAdj( N ), gElVe( N ), gFaSp( N ), gElFa( N ), gFaVe; std::vector< std::array< double, 3 > > crd;
  for( int p : paS ) nPaEls[p]++;
  {
    edge_v::io::Gmsh gm; gm.open( path ); gm.readMesh(); edge_v::mesh::Mesh m( gm, std::numeric_limits< int >::max() );
    for( int e = 0; e < N; e++ ) for( int f = 0; f < nF; f++ ) { gAdj[e].push_back( cv( m.getElFaEl()[e*nF+f] ) ); SZ fa = m.getElFa()[e*nF+f]; gElFa[e].push_back( fa ); gFaSp[e].push_back( m.getSpTypeFa()[fa] ); }
    for( int e = 0; e < N; e++ ) for( int v = 0; v < g.nV; v++ ) gElVe[e].push_back( m.getElVe()[e*g.nV+v] );
    for( SZ f = 0; f < m.nFas(); f++ ) { gFaVe.push_back( std::vector< long >() ); for( int v = 0; v < g.nFV; v++ ) gFaVe.back().push_back( m.getFaVe()[f*g.nFV+v] ); }
    for( SZ v = 0; v < m.nVes(); v++ ) crd.push_back( {{ m.getVeCrds()[v][0], m.getVeCrds()[v][1], m.getVeCrds()[v][2] }} );
    std::vector< unsigned short > etg( tgS.begin(), tgS.end() );
    edge_v::mesh::Communication c( nT, m.getTypeEl(), N, m.getElFaEl(), nP, nPaEls.data(), etg.data() );
    SZ first = 0;
    for( int p = 0; p < nP; p++ ) {
      PaData & d = pd[p]; d.nIn.assign( c.nGroupElsIn( p ), c.nGroupElsIn( p )+nT ); d.nSe.assign( c.nGroupElsSe( p ), c.nGroupElsSe( p )+nT );
      if( nP > 1 ) {
        SZ n = c.nSeRe( p ); d.st.assign( c.getStruct( p ), c.getStruct( p )+1+4*c.getStruct( p )[0] );
        d.se.assign( c.getSendEl( p ), c.getSendEl( p )+n ); d.sf.assign( c.getSendFa( p ), c.getSendFa( p )+n ); d.re.assign( c.getRecvEl( p ), c.getRecvEl( p )+n ); d.rf.assign( c.getRecvFa( p ), c.getRecvFa( p )+n );
        d.idF.resize( n ); d.idV.resize( n );
        m.getFaIdsAd( n, first, d.se.data(), d.sf.data(), d.idF.data() ); m.getVeIdsAd( n, first, d.se.data(), d.sf.data(), d.idV.data() );
      }
      first += nPaEls[p];
    }
  }
  o.aa( "gAdj", gAdj ).aa( "gElVe", gElVe ).aa( "gFaSp", gFaSp );
  // supplement and mesh of every partition, written and read by "its" rank
  double base = r.coin() ? 1 : r.range( 1, 8 )/8.0; bool gts = nT == 1 && nP == 1 && r.coin();
  std::vector< double > dts( nT+1 ); for( int t = 0; t < nT; t++ ) dts[t] = base*(1 << t); dts[nT] = std::numeric_limits< double >::max();
  std::vector< long > rel; for( int t = 0; t < nT; t++ ) rel.push_back( nT == 1 ? 1024 : fix( dts[t], 1024 ) ); o.a( "rel", rel );
  std::string pas = "["; SZ first = 0;
  for( int p = 0; p < nP; p++ ) {
    std::string pm = dir + "/p.msh", ph = dir + "/p.h5"; PaData & d = pd[p]; SZ n = nPaEls[p];
    {
      edge_v::io::Hdf5 h( ph, false ); h.createGroup( "/edge_v" );
      if( !gts ) {
        h.set( "/edge_v/relative_time_steps", nT+1, dts.data() );
        h.set( "/edge_v/n_time_group_elements_inner", nT, d.nIn.data() ); h.set( "/edge_v/n_time_group_elements_send", nT, d.nSe.data() );
      }
      if( nP > 1 ) {
        h.set( "/edge_v/communication_structure", d.st.size(), d.st.data() );
        h.set( "/edge_v/send_el", d.se.size(), d.se.data() ); h.set( "/edge_v/send_fa", d.sf.size(), d.sf.data() );
        h.set( "/edge_v/recv_el", d.re.size(), d.re.data() ); h.set( "/edge_v/recv_fa", d.rf.size(), d.rf.data() );
        h.set( "/edge_v/send_face_ids", d.idF.size(), d.idF.data() ); h.set( "/edge_v/send_vertex_ids", d.idV.size(), d.idV.data() );
      }
    }
    {
      std::ofstream f( pm ); f.precision( 17 ); std::set< long > ves; std::map< long, long > fas;
      for( SZ e = first; e < first+n; e++ ) { for( long v : gElVe[e] ) ves.insert( v ); for( int k = 0; k < nF; k++ ) if( gFaSp[e][k] ) fas[gElFa[e][k]] = gFaSp[e][k]; }
      f << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" << ves.size() << "\n";
      for( long v : ves ) f << v+1 << " " << crd[v][0] << " " << crd[v][1] << " " << crd[v][2] << "\n";
      f << "$EndNodes\n$Elements\n" << fas.size()+n << "\n"; long id = 1; int et = (int[]){2,3,4,5}[ty], ft = (int[]){1,1,2,3}[ty];
      for( auto & x : fas ) { f << id++ << " " << ft << " 2 " << x.second << " " << x.second*10; for( long v : gFaVe[x.first] ) f << " " << v+1; f << "\n"; }
      for( SZ e = first; e < first+n; e++ ) {
        f << id++ << " " << et << " 2 1 1"; std::vector< long > v = gElVe[e]; for( long x : v ) f << " " << x+1; f << "\n"; }
      f << "$EndElements\n";
    }
    edge::parallel::g_nRanks = nP; edge::parallel::g_rank = p;
    edge::mesh::EdgeV ev( pm, ph, std::numeric_limits< int >::max() );
    std::vector< t_elementChars > ec( ev.nEls() ); std::vector< t_faceChars > fc( ev.nFas() ); std::vector< t_vertexChars > vc( ev.nVes() );
    std::vector< LL > pre( ev.nEls() );
    for( SZ e = 0; e < ev.nEls(); e++ ) ec[e].spType = pre[e] = r.coin() ? r.below( 1u << 31 ) : 0;
    for( auto & x : fc ) x.spType = LL( 1 ) << 33; for( auto & x : vc ) x.spType = LL( 1 ) << 34;
    Rec q; q.n( "first", first ).n( "n", n ).n( "nEls", ev.nEls() ).n( "nTgs", ev.nTgs() );
    ev.setLtsTypes( ec.data() );
    VV fl( ev.nEls() ), fAd, vAd, faSp( ev.nEls() ); std::vector< long > el( ev.nEls() ); bool keep = true;
    for( SZ e = 0; e < ev.nEls(); e++ ) keep &= decode( ec[e].spType, pre[e], nF, fl[e], el[e] );
    ev.setSpTypes( vc.data(), fc.data(), ec.data() );
    std::vector< unsigned short > a( ev.nEls()*nF+2, 4711 ), b( ev.nEls()*nF+2, 4711 );
    ev.setSeVeFaIdsAd( b.data()+1, a.data()+1 );
    if( a.front() != 4711 || a.back() != 4711 || b.front() != 4711 || b.back() != 4711 ) keep = false;
    for( SZ e = 0; e < ev.nEls(); e++ ) {
      fAd.push_back( std::vector< long >() ); vAd.push_back( std::vector< long >() );
      for( int f = 0; f < nF; f++ ) { fAd.back().push_back( us( a[1+e*nF+f] ) ); vAd.back().push_back( us( b[1+e*nF+f] ) ); LL s = fc[ ev.getElFa()[e*nF+f] ].spType; if( !( s & (LL( 1 ) << 33) ) ) keep = false; faSp[e].push_back( s & 0xffffff ); }
    }
    for( auto & x : vc ) if( !( x.spType & (LL( 1 ) << 34) ) ) keep = false;
    int k = std::min< int >( ev.nTgs(), 50 );
    std::vector< long > nIn, nSe, rl, own; VV li, ls; t_enLayout la = ev.getElLayout();
    for( int t = 0; t < k; t++ ) {
      nIn.push_back( cv( ev.nTgElsIn()[t] ) ); nSe.push_back( cv( ev.nTgElsSe()[t] ) ); rl.push_back( fix( ev.getRelDt()[t], 1024 ) );
      if( (int) la.timeGroups.size() > t && la.timeGroups[t].send.size() == 1 ) { auto & x = la.timeGroups[t]; li.push_back( { cv( x.inner.first ), cv( x.inner.size ) } ); ls.push_back( { cv( x.send[0].first ), cv( x.send[0].size ) } ); own.push_back( cv( x.nEntsOwn ) ); }
    }
    q.a( "nIn", nIn ).a( "nSe", nSe ).n( "sumIn", ev.nElsIn() ).n( "sumSe", ev.nElsSe() ).a( "rel", rl ).aa( "layIn", li ).aa( "laySe", ls ).a( "layOwn", own ).n( "layN", cv( la.nEnts ) );
    q.aa( "fl", fl ).a( "el", el ).aa( "fAd", fAd ).aa( "vAd", vAd ).aa( "faSp", faSp ).n( "keep", keep );
    // communication structure as written and as read
    VV co, gco; std::vector< long > cs, gcs; for( SZ x : d.st ) gcs.push_back( x );
    for( size_t i = 0; i < d.se.size(); i++ ) gco.push_back( { cv( d.se[i] ), d.sf[i], cv( d.re[i] ), d.rf[i] } );
    if( ev.getCommStruct() != nullptr ) { SZ m = std::min< SZ >( ev.getCommStruct()[0], 1000 ); for( SZ i = 0; i < 1+4*m && i < d.st.size(); i++ ) cs.push_back( cv( ev.getCommStruct()[i] ) ); }
    for( SZ i = 0; i < ev.nCommElFa() && i < d.se.size()+1; i++ ) co.push_back( { cv( ev.getSendEl()[i] ), ev.getSendFa()[i], cv( ev.getRecvEl()[i] ), ev.getRecvFa()[i] } );
    q.a( "chs", cs ).a( "gChs", gcs ).aa( "co", co ).aa( "gCo", gco );
    pas += ( p ? "," : "" ) + q.str(); first += n;
  }
  o.raw( "pas", pas + "]" ).put();
  return true;
}
int main( int argc, char ** argv ) {
  el::Configurations c; c.setToDefault(); c.setGlobally( el::ConfigurationType::ToStandardOutput, "false" ); c.setGlobally( el::ConfigurationType::ToFile, "false" ); el::Loggers::reconfigureAllLoggers( c );
  int ty = atoi( argv[5] ), n1 = atoi( argv[3] ), n2 = atoi( argv[4] ); Rng r( atol( argv[2] )*97 + ty );
  for( int i = 0; i < n1; i++ ) direct( r );
  for( int i = 0; i < n2; ) i += pipe( r, ty, argv[1] );
  return 0;
}
