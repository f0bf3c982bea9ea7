// Driver of edge::data::Dynamic, EntityLayout, DataLayout and of the message buffers of parallel::Distributed.
// usage: memory <seed> <n>
#include <algorithm>
#include <cstring>
#include <map>
#include <set>
#include <malloc.h>
#include "common.h"
#include "data/Dynamic.h"
#include "data/DataLayout.hpp"
#include "data/EntityLayout.h"
#include "parallel/Distributed.h"
#include "io/logging.h"
INITIALIZE_EASYLOGGINGPP
typedef std::vector< std::vector< long > > VV;
extern "C" void __libc_free( void * );
static const void * g_watch[512]; static int g_freed[512]; static int g_nWatch = 0; static bool g_on = false;
// releases of watched blocks are counted; they are given back at the end of a case, so that no address is used twice
extern "C" void free( void * p ) { if( g_on && p ) for( int i = 0; i < g_nWatch; i++ ) if( g_watch[i] == p ) { g_freed[i]++; return; } __libc_free( p ); }

// numbers the given addresses by their order
struct Order {
  std::set< uintptr_t > s; std::map< uintptr_t, long > m;
  void add( void const * p ) { s.insert( (uintptr_t) p ); }
  void fin() { long i = 0; for( auto x : s ) m[x] = i++; }
  long operator()( void const * p ) { auto i = m.find( (uintptr_t) p ); return i == m.end() ? -1 : i->second; }
};

static void pool( Rng & r ) {
  // requests to up to three pools with different life times
  struct Blk { int pool; unsigned char * p; size_t size, al; unsigned char fill; int w; };
  std::vector< Blk > b; edge::data::Dynamic * ps[3] = { new edge::data::Dynamic, new edge::data::Dynamic, new edge::data::Dynamic };
  g_nWatch = 0; memset( g_freed, 0, sizeof( g_freed ) ); g_on = true; bool kept = true; std::vector< long > early, left; int n = r.range( 1, 40 );
  VV blocks, req; Order o; int dead = -1;
  auto check = [&]( Blk const & x ) { for( size_t i = 0; i < x.size; i++ ) if( x.p[i] != x.fill ) return false; return true; };
  for( int i = 0; i < n; i++ ) {
    int q = r.below( 3 ); if( !ps[q] ) continue;
    if( dead < 0 && r.coin( 1, 25 ) ) {
      for( auto const & x : b ) if( x.pool == q ) { kept &= x.size == 0 || check( x ); }
      for( int k = 0; k < g_nWatch; k++ ) early.push_back( g_freed[k] );
      dead = q; delete ps[q]; ps[q] = nullptr; continue;
    }
    Blk x; x.pool = q; x.size = r.coin( 1, 12 ) ? 0 : r.coin( 1, 10 ) ? r.range( 1, 300000 ) : r.range( 1, 300 ); x.al = r.coin( 1, 3 ) ? 0 : (size_t) 8 << r.below( 10 ); x.fill = r.below( 256 );
    x.p = (unsigned char *) ( x.al == 0 ? ps[q]->allocate( x.size ) : r.coin() ? ps[q]->allocate( x.size, x.al ) : ps[q]->allocate( x.size, x.al, r.coin(), r.coin() ) );
    if( x.al == 0 ) x.al = 64;
    x.w = -1;
    if( x.p ) { g_watch[g_nWatch] = x.p; g_freed[g_nWatch] = 0; x.w = g_nWatch++; if( malloc_usable_size( x.p ) < x.size ) { kept = false; x.size = 0; } memset( x.p, x.fill, x.size ); }
    b.push_back( x );
  }
  for( auto const & x : b ) if( ps[x.pool] && x.size ) kept &= check( x );
  // released exactly once, with the pool
  std::vector< long > fr( b.size() ), fr2( b.size() );
  for( size_t i = 0; i < b.size(); i++ ) fr[i] = b[i].w < 0 ? 0 : g_freed[b[i].w];
  for( auto & p : ps ) { delete p; p = nullptr; }
  for( size_t i = 0; i < b.size(); i++ ) fr2[i] = b[i].w < 0 ? 0 : g_freed[b[i].w];
  g_on = false; for( int i = 0; i < g_nWatch; i++ ) __libc_free( (void *) g_watch[i] );
  std::vector< long > wasDead, isNull, mod, size;
  for( auto const & x : b ) if( x.p && x.pool != dead ) { o.add( x.p ); o.add( x.p + x.size ); }
  o.fin();
  for( auto const & x : b ) {
    wasDead.push_back( x.pool == dead ); isNull.push_back( x.p == nullptr ); mod.push_back( (uintptr_t) x.p % x.al ); size.push_back( x.size );
    if( x.p && x.pool != dead ) blocks.push_back( { o( x.p ), o( x.p+x.size ) } ); else blocks.push_back( { 0, 0 } );
  }
  long e = 0; for( long x : early ) e += x;
  Rec().s( "k", "pool" ).aa( "blocks", blocks ).a( "size", size ).a( "null", isNull ).a( "mod", mod ).a( "dead", wasDead ).n( "early", e ).a( "freedBefore", fr ).a( "freed", fr2 ).n( "kept", kept ).put();
}

struct Chars { long long spType; };
template< typename T, typename L > static void flexT( Rng & r ) {
  edge::data::Dynamic d; int nEn = r.coin( 1, 15 ) ? 0 : r.range( 1, 14 ), nSp = r.range( 0, 4 ), nB = r.range( 1, 6 ), sh = r.range( 0, 50 );
  std::vector< long > masks( nSp ), types( nEn ); std::vector< long long > sp( nSp ); std::vector< size_t > sz( nSp ); std::vector< Chars > ch( nEn+1 );
  for( int i = 0; i < nSp; i++ ) { masks[i] = r.range( 1, ( 1 << nB )-1 ); if( r.coin() ) masks[i] = 1 << r.below( nB ); sp[i] = (long long) masks[i] << sh; sz[i] = r.coin( 1, 8 ) ? 0 : r.range( 1, 9 ); }
  for( int e = 0; e < nEn; e++ ) { types[e] = r.below( 1 << nB ); ch[e].spType = ( (long long) types[e] << sh ) | ( r.coin() ? ( sh > 0 ? 1 : 0 ) : 0 ); }
  size_t b = r.coin( 1, 6 ) ? 0 : r.range( 1, 12 ), al = r.coin() ? 64 : (size_t) 8 << r.below( 9 );
  // requests through a second pool object disturb the heap
  edge::data::Dynamic other; for( int i = 0; i < 5; i++ ) memset( other.allocate( 200*( 1+r.below( 4 ) ) ), 255, 200 );
  bool def = r.coin( 1, 4 ); if( def ) al = 64;
  T ** p = def ? d.flex< T >( (L) nEn, nSp, b, sp.data(), sz.data(), ch.data() ) : d.flex< T >( (L) nEn, nSp, b, sp.data(), sz.data(), ch.data(), al );
  if( p == nullptr ) { Rec().s( "k", "flex" ).n( "nEn", nEn ).n( "b", b ).a( "masks", masks ).a( "sz", sz ).a( "types", types ).a( "ptrs", std::vector< long >() ).n( "mod", 0 ).n( "cap", 0 ).n( "kept", 0 ).put(); return; }
  int nP = ( nSp+1 )*nEn; T * base = nullptr; for( int i = 0; i <= nP && !base; i++ ) base = p[i];   // the first slot starts the storage
  std::vector< long > off; for( int i = 0; i <= nP; i++ ) { long x = p[i] == nullptr ? -1 : p[i]-base; off.push_back( x < -1 ? -2 : x > 1000000 ? 1000000 : x ); }
  if( base == nullptr ) off[nP] = 0;
  bool kept = true; long cap = base ? malloc_usable_size( base )/sizeof( T ) : 0;
  if( base && off[nP] <= cap ) {      // all of the storage can be used
    for( long i = 0; i < off[nP]; i++ ) base[i] = (T) i;
    for( int i = 0; i < 3; i++ ) memset( other.allocate( 500 ), 170, 500 );
    for( long i = 0; i < off[nP]; i++ ) kept &= base[i] == (T) i;
  }
  Rec().s( "k", "flex" ).n( "nEn", nEn ).n( "b", b ).a( "masks", masks ).a( "sz", sz ).a( "types", types ).a( "ptrs", off ).n( "mod", base && off[nP] > 0 ? (uintptr_t) base % al : 0 ).n( "cap", cap ).n( "kept", kept ).put();
}

static void layout( Rng & r ) {
  t_enLayout l; int nT = r.range( 0, 5 ); l.timeGroups.resize( nT ); VV se; std::vector< long > in;
  l.nEnts = r.below( 100 );
  for( auto & g : l.timeGroups ) {
    g.nEntsOwn = r.below( 50 ); g.nEntsNotOwn = r.below( 50 ); g.inner.first = r.below( 50 ); g.inner.size = r.below( 20 ); int n = r.below( 4 ); g.send.resize( n ); g.receive.resize( n ); in.push_back( g.inner.size ); se.emplace_back();
    for( auto & x : g.send ) { x.first = r.below( 40 ); x.size = r.below( 20 ); se.back().push_back( x.size ); } for( auto & x : g.receive ) { x.first = r.below( 40 ); x.size = 0; }
  }
  edge::data::EntityLayout::sizesToLayout( l );
  VV inO, seO; std::vector< long > own; auto c = []( size_t v ) { return v > 1000000 ? -9l : (long) v; };
  for( auto & g : l.timeGroups ) { inO.push_back( { c( g.inner.first ), c( g.inner.size ) } ); for( auto & x : g.send ) seO.push_back( { c( x.first ), c( x.size ) } ); own.push_back( c( g.nEntsOwn ) ); }
  Rec().s( "k", "layout" ).a( "in", in ).aa( "se", se ).aa( "inO", inO ).aa( "seO", seO ).a( "own", own ).n( "n", c( l.nEnts ) ).put();
}

template< int NF > static void adj( Rng & r ) {
  typedef double Raw[3]; typedef Raw * Row[NF];
  int nR = r.coin( 1, 4 ) ? 0 : r.range( 1, 3 ), nT = nR == 0 ? r.range( 1, 3 ) : 1; t_enLayout l; l.timeGroups.resize( nT );
  int off = 0; std::vector< int > kind; // 0 inner, 1+r send region, 100+r receive region
  for( auto & g : l.timeGroups ) {
    g.inner.first = off; g.inner.size = r.below( 7 ); for( size_t i = 0; i < g.inner.size; i++ ) kind.push_back( 0 );
    off += g.inner.size; g.nEntsOwn = g.inner.size; g.nEntsNotOwn = 0;
    for( int i = 0; i < nR; i++ ) { t_timeRegion x; x.first = off; x.size = r.below( 5 ); off += x.size; g.nEntsOwn += x.size; g.send.push_back( x ); for( size_t j = 0; j < x.size; j++ ) kind.push_back( 1+i ); }
    for( int i = 0; i < nR; i++ ) { t_timeRegion x; x.first = off; x.size = r.below( 5 ); off += x.size; g.nEntsNotOwn += x.size; g.receive.push_back( x ); for( size_t j = 0; j < x.size; j++ ) kind.push_back( 100+i ); }
  }
  l.nEnts = off; std::vector< size_t > ad( off*NF+1, std::numeric_limits< size_t >::max() ); std::vector< std::pair< int, int > > free_;
  for( int e = 0; e < off; e++ ) for( int f = 0; f < NF; f++ ) free_.push_back( { e, f } );
  r.shuffle( free_ );
  for( size_t i = 0; i+1 < free_.size(); i += 2 ) {
    auto a = free_[i], b = free_[i+1]; if( a.first == b.first || r.coin( 1, 6 ) ) continue;
    bool ra = kind[a.first] >= 100, rb = kind[b.first] >= 100, ia = kind[a.first] == 0, ib = kind[b.first] == 0;
    if( ( ra && ib ) || ( rb && ia ) || ( ra && rb ) ) continue;
    ad[a.first*NF+a.second] = b.first; ad[b.first*NF+b.second] = a.first;
  }
  std::vector< size_t > sp; std::vector< long > spO; if( r.coin() ) for( int e = 0; e < off; e++ ) { bool y = r.coin(); sp.push_back( y ? e : std::numeric_limits< size_t >::max() ); spO.push_back( y ? 1 : -1 ); }
  if( sp.empty() && off > 0 && false ) sp.push_back( 0 );
  size_t cap = (size_t) off*NF; std::vector< double > raw( 3*( cap+2 ), 0.0 ); std::vector< double > dummy( 12 );
  std::vector< Raw * > ptr( cap+1, (Raw *) dummy.data() ); Raw * base = (Raw *) ( raw.data()+3 );
  std::vector< std::vector< unsigned char * > > se, re;
  edge::data::DataLayout::adj( (unsigned short) NF, ad.data(), l, base, (Row *) ptr.data(), se, re, sp.empty() ? nullptr : sp.data() );
  VV adO( off ), pO( off ), seO, reO, lay;
  auto idx = [&]( void * p ) { ptrdiff_t d = (char *) p - (char *) base; if( p == nullptr ) return -1l; if( d < 0 || d % sizeof( Raw ) || d/sizeof( Raw ) > cap ) return -2l; return (long) ( d/sizeof( Raw ) ); };
  for( int e = 0; e < off; e++ ) for( int f = 0; f < NF; f++ ) { adO[e].push_back( ad[e*NF+f] == std::numeric_limits< size_t >::max() ? -1 : (long) ad[e*NF+f] ); pO[e].push_back( idx( ptr[e*NF+f] ) ); }
  for( auto & x : se ) { seO.emplace_back(); for( auto p : x ) seO.back().push_back( idx( p ) ); } for( auto & x : re ) { reO.emplace_back(); for( auto p : x ) reO.back().push_back( idx( p ) ); }
  std::string ls = "["; for( auto & g : l.timeGroups ) {
    VV s, e; for( auto & x : g.send ) s.push_back( { (long) x.first, (long) x.size } ); for( auto & x : g.receive ) e.push_back( { (long) x.first, (long) x.size } );
    ls += ( ls.size() > 1 ? "," : "" ) + Rec().a( "in", std::vector< long >{ (long) g.inner.first, (long) g.inner.size } ).n( "own", g.nEntsOwn ).aa( "se", s ).aa( "re", e ).str();
  }
  Rec().s( "k", "adj" ).raw( "lay", ls + "]" ).aa( "ad", adO ).a( "sp", spO ).aa( "ptr", pO ).aa( "send", seO ).aa( "recv", reO ).put();
}

struct Dist: public edge::parallel::Distributed {
  Dist(): Distributed( 0, nullptr ) {}
  void beginSends( bool, unsigned short ) {} void beginRecvs( bool, unsigned short ) {} void comm() {} bool finSends( bool, unsigned short ) const { return true; } bool finRecvs( bool, unsigned short ) const { return true; }
  void run( Rng & r ) {
    edge::data::Dynamic d; int nT = r.range( 1, 4 ), nF = r.range( 2, 6 ), nE = r.range( 1, 12 ), by = r.pick( std::vector< int >{ 4, 8, 24, 100 } ), nB = r.range( 1, 2 );
    VV ch; std::vector< std::pair< int, int > > fa; for( int e = 0; e < nE; e++ ) for( int f = 0; f < nF; f++ ) fa.push_back( { e, f } ); r.shuffle( fa );
    int nC = r.below( fa.size()+1 ), i = 0; std::vector< size_t > st{ 0 }, se, re; std::vector< unsigned short > sf, rf;
    while( i < nC ) { int n = std::min( (int) r.range( 1, 5 ), nC-i ), a = r.below( nT ), b = std::max< int >( 0, std::min< int >( nT-1, a + r.range( -1, 1 ) ) ); ch.push_back( { a, (long) r.below( 4 ), b, n } ); i += n; }
    std::sort( ch.begin(), ch.end() ); st[0] = ch.size(); for( auto & c : ch ) for( long x : c ) st.push_back( x );
    // the receive order is another permutation within the same faces of a channel
    VV co; i = 0; for( auto & c : ch ) { std::vector< std::pair< int, int > > x( fa.begin()+i, fa.begin()+i+c[3] ), y = x; r.shuffle( y ); for( int k = 0; k < c[3]; k++ ) { se.push_back( x[k].first ); sf.push_back( x[k].second ); re.push_back( y[k].first ); rf.push_back( y[k].second ); co.push_back( { x[k].first, x[k].second, y[k].first, y[k].second } ); } i += c[3]; }
    bool none = ch.empty() && r.coin();
    init( nT, nF, nE, by, none ? nullptr : st.data(), none ? nullptr : sf.data(), none ? nullptr : se.data(), none ? nullptr : rf.data(), none ? nullptr : re.data(), nB, d );
    auto off = [&]( unsigned char const * p, unsigned char const * b, size_t n ) { return p == nullptr ? -1l : p < b || p > b+n*nB || !b ? -2l : (long) ( p-b ); };
    VV sp, rp, ms, mr; int nR = nB == 2 ? 4 : 1;
    for( int b = 0; b < nB; b++ ) { sp.emplace_back(); for( int k = 0; k < nE*nF; k++ ) sp.back().push_back( off( getSendPtrs()[b][k], m_sendBuffers, m_sendBufferSize ) ); }
    for( int b = 0; b < nR; b++ ) { rp.emplace_back(); for( int k = 0; k < nE*nF; k++ ) rp.back().push_back( off( getRecvPtrs()[b][k], m_recvBuffers, m_recvBufferSize ) ); }
    for( size_t c = 0; c < m_nChs && c < 1000; c++ ) { auto & s = m_sendMsgs[c]; auto & q = m_recvMsgs[c]; ms.push_back( { s.tgL, s.rank, s.tgR, s.tag, (long) s.size, (long) s.offL } ); mr.push_back( { q.tgL, q.rank, q.tgR, q.tag, (long) q.size, (long) q.offL } ); }
    bool cap = true; if( m_sendBuffers ) { cap &= malloc_usable_size( m_sendBuffers ) >= m_sendBufferSize*nB; cap &= malloc_usable_size( m_recvBuffers ) >= m_recvBufferSize*nB; }
    // copies which are used for the n-th send and receive
    VV cs, cr; for( int n = 0; n < 10; n++ ) { int t = r.below( nT ); m_nSendsSync[t] = n; m_nRecvsSync[t] = n; unsigned short a = 7, b = 7, c = 7; sendCommBuffers2( t, a, b, c ); cs.push_back( { a, b == 65535 ? -1 : b, c } ); a = b = 7; recvCommBuffers2( t, a, b ); cr.push_back( { a, b } ); }
    // messages by time group and relation
    VV mt; for( int t = 0; t < nT; t++ ) for( int lt = 0; lt < 2; lt++ ) { mt.emplace_back(); for( size_t c = 0; c < m_nChs && c < 1000; c++ ) mt.back().push_back( checkSendTgLt( c, lt, t ) + 2*checkRecvTgLt( c, lt, t ) ); }
    Rec().s( "k", "buf" ).n( "nT", nT ).n( "nF", nF ).n( "nE", nE ).n( "by", by ).n( "nB", nB ).aa( "chs", ch ).aa( "co", co ).n( "nChs", m_nChs ).n( "sSize", m_sendBufferSize ).n( "rSize", m_recvBufferSize ).n( "cap", cap )
      .aa( "sp", sp ).aa( "rp", rp ).aa( "ms", ms ).aa( "mr", mr ).aa( "cs", cs ).aa( "cr", cr ).aa( "mt", mt ).put();
  }
};
int main( int, char ** argv ) {
  el::Configurations c; c.setToDefault(); c.setGlobally( el::ConfigurationType::ToStandardOutput, "false" ); c.setGlobally( el::ConfigurationType::ToFile, "false" ); el::Loggers::reconfigureAllLoggers( c );
  Rng r( atol( argv[1] ) ); int n = atoi( argv[2] );
  for( int i = 0; i < n; i++ ) {
    pool( r ); layout( r ); adj< 2 >( r ); adj< 3 >( r ); adj< 4 >( r ); adj< 6 >( r );
    flexT< double, size_t >( r ); flexT< float, int >( r ); flexT< unsigned char, size_t >( r );
    Dist d; d.run( r ); Dist e; e.run( r );
  }
  return 0;
}
