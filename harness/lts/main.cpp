// Runs generated cases through the real solver (src/main.cpp) and writes one JSON line per case.
// usage: lts <seed> <first> <n> <mpi> <stress> <workdir> <out>
#include "rt.h"
#include "case.h"
#include "constants.hpp"
#include "dg/Basis.h"
#if PP_N_RELAXATION_MECHANISMS > 0
#include "impl/seismic/setups/ViscoElasticity.h"
#endif
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <dirent.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <time.h>
extern "C" int edge_main( int, char ** );
// stand-in for the generated matrices: the identity
namespace { struct MassI { double v[N_ELEMENT_MODES*N_ELEMENT_MODES]; MassI() { for( int i = 0; i < N_ELEMENT_MODES*N_ELEMENT_MODES; i++ ) v[i] = i%(N_ELEMENT_MODES+1) == 0; } } massI; }
namespace edge { namespace pre { namespace dg { extern double const * g_massRaw; extern std::size_t const g_massSize; double const * g_massRaw = massI.v; std::size_t const g_massSize = N_ELEMENT_MODES*N_ELEMENT_MODES; } } }
using namespace vf;
static std::string xml;
static int entry( void * ) { char a0[] = "edge", a1[] = "-x"; static char a2[4096]; snprintf( a2, sizeof(a2), "%s", xml.c_str() ); char *av[] = { a0, a1, a2, nullptr }; return edge_main( 3, av ); }
// velocity of the p-waves in the elastic material which the solver derives from writeXml's material
static double vp() {
  double lam = 2, mu = 1;
#if PP_N_RELAXATION_MECHANISMS > 0
  double s[PP_N_RELAXATION_MECHANISMS][N_DIM == 2 ? 9 : 36];
  edge::seismic::setups::ViscoElasticity::src( PP_N_RELAXATION_MECHANISMS, 1.0, 100.0, 50.0, 30.0, 2.0, 1.0, lam, mu, s );
#endif
  return std::sqrt( lam+2*mu );
}
static void rmTree( std::string const & d ) { std::string c = "rm -rf '" + d + "'"; if( system( c.c_str() ) ) {} }
static double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + 1e-9*t.tv_nsec; }

int main( int argc, char **argv ) {
  if( argc < 8 ) return 3;
  unsigned long seed = strtoul( argv[1], 0, 10 ); int first = atoi( argv[2] ), n = atoi( argv[3] ), mpi = atoi( argv[4] ), stress = atoi( argv[5] );
  std::string wd = argv[6]; std::ofstream out( argv[7] );
  shm = (Shm*) mmap( nullptr, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0 );
  std::size_t arena = 256u<<20;
  unsigned char *ar = (unsigned char*) mmap( nullptr, arena, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0 );
  if( shm == MAP_FAILED || ar == MAP_FAILED ) return 3;
  int hangs = 0;
  for( int id = first; id < first+n; id++ ) {
    Case c;
    generate( c, seed, id, mpi, C_ENT[T_SDISC.ELEMENT].N_FACES, C_ENT[T_SDISC.ELEMENT].N_VERTICES, N_DIM, C_REF_ELEMENT.VE.ENT[T_SDISC.ELEMENT], stress, vp() );
    g_case = &c;
    std::string dir = wd + "/case" + std::to_string( id );
    mkdir( dir.c_str(), 0755 );
    xml = dir + "/c.xml";
    writeXml( c, xml, dir + "/recv", N_CRUNS, PP_N_RELAXATION_MECHANISMS );
    memset( (void*) shm, 0, offsetof( Shm, msgs ) ); shm->nEvents = 0; shm->fail[0] = 0; shm->sizeErr = 0; shm->barCount = shm->barGen = 0; shm->redCount = shm->redGen = shm->redLeft = 0;
    memset( shm->clock, 0, sizeof( shm->clock ) ); memset( shm->reqs, 0, sizeof(Req)*2 );
    shm->nMsgs = 0; shm->nReqs = 1; shm->arena = ar; shm->arenaUsed = 0; shm->arenaSize = arena;
    shm->nRanks = c.nRanks; shm->nThreads = c.nThreads; shm->nAgents = c.nRanks*c.nThreads; shm->rng = c.seed | 1; shm->pSwitch = c.pSwitch; shm->eagerPct = c.eagerPct;
    shm->cap = 60000000ULL; shm->gapCap = 10000000ULL; shm->progress = shm->progressAt = shm->maxGap = shm->nDone = 0; shm->turn = 0;
    for( int k = 0; k < c.nRanks; k++ ) shm->alive[k*c.nThreads] = 1;
    for( int a = 0; a < shm->nAgents; a++ ) shm->weight[a] = 50;
    pid_t pid[MAX_RANKS];
    for( int k = 0; k < c.nRanks; k++ ) {
      pid[k] = fork();
      if( pid[k] < 0 ) return 3;
      if( pid[k] == 0 ) {
        int nul = open( "/dev/null", O_WRONLY ); dup2( nul, 1 );
        int er = open( (dir + "/err" + std::to_string( k )).c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644 ); dup2( er, 2 );
        rankRun( k, entry, nullptr );
        _exit( 0 );
      }
    }
    int status[MAX_RANKS], left = c.nRanks; std::string end = "ok"; double t0 = now(), deadline = 0;
    for( int k = 0; k < c.nRanks; k++ ) status[k] = -1;
    bool bad = false;
    while( left > 0 ) {
      bool prog = false;
      for( int k = 0; k < c.nRanks; k++ ) if( pid[k] > 0 ) { int st; pid_t w = waitpid( pid[k], &st, WNOHANG ); if( w == pid[k] ) { prog = true; left--; pid[k] = 0; status[k] = WIFEXITED(st) ? WEXITSTATUS(st) : 1000+WTERMSIG(st); if( status[k] != 0 && !bad ) { bad = true; deadline = now()+0.2; end = status[k] == 77 || shm->hang ? "hang" : status[k] == 78 ? "harness" : "crash"; } } }
      if( (bad && now() > deadline) || now()-t0 > 120 ) { if( !bad ) { bad = true; end = "timeout"; } for( int k = 0; k < c.nRanks; k++ ) if( pid[k] > 0 ) kill( pid[k], SIGKILL ); }
      if( !prog && left > 0 ) usleep( 300 );
    }
    if( end == "harness" ) { fprintf( stderr, "harness: %s\n", shm->fail ); return 3; }
    int outst = 0; for( int m = 0; m < shm->nMsgs; m++ ) if( !shm->msgs[m].delivered ) outst++;
    for( int q = 1; q < shm->nReqs; q++ ) if( shm->reqs[q].used ) outst++;
    std::ostringstream o;
    o << "{\"case\":" << id << ",\"ranks\":" << c.nRanks << ",\"threads\":" << c.nThreads << ",\"sep\":" << c.sepWrks << ",\"tgs\":" << c.nTgs << ",\"dt\":" << 2*c.dt << ",\"syncs\":[";
    for( std::size_t i = 0; i < c.syncs.size(); i++ ) o << (i ? "," : "") << 2*c.syncs[i];
    o << "],\"tg\":["; for( std::size_t e = 0; e < c.tg.size(); e++ ) o << (e ? "," : "") << c.tg[e];
    o << "],\"rank\":["; for( std::size_t e = 0; e < c.tg.size(); e++ ) o << (e ? "," : "") << c.rank[e];
    o << "],\"src\":["; for( std::size_t e = 0; e < c.tg.size(); e++ ) o << (e ? "," : "") << (int) c.src[e];
    o << "],\"fa\":["; for( std::size_t e = 0; e < c.tg.size(); e++ ) { o << (e ? "," : "") << "["; for( int f = 0; f < c.nFas; f++ ) { Face &x = c.fa[e][f]; int v = x.kind == 0 ? x.vid : -1; if( x.kind == 0 && c.rank[x.e] != c.rank[e] ) v = c.fa[x.e][x.f].vid; o << (f ? "," : "") << "[" << x.kind << "," << x.e << "," << x.f << "," << v << "]"; } o << "]"; }
    o << "],\"end\":\"" << end << "\",\"outstanding\":" << outst << ",\"sizeerr\":" << shm->sizeErr << ",\"yields\":" << shm->yields << ",\"switches\":" << shm->switches << ",\"ev\":[";
    for( int i = 0; i < shm->nEvents; i++ ) { Event &x = shm->ev[i]; o << (i ? "," : "") << "[" << x.kind << "," << x.rank << "," << x.thread << "," << x.e << "," << x.f << "," << x.a << "," << x.b << "," << x.n << "," << x.fa2 << "," << x.v << "," << x.via << "," << x.mat << "]"; }
    o << "],\"freq8\":" << (long) std::lround( c.freq*8 ) << ",\"recvs\":[";
    // receivers: [element, rank which wrote (-1: none or several), [[time*8 (CSV), time*8 (value), element (value)], ...]]
    double basis0 = 0;
    for( std::size_t i = 0; i < c.recvs.size(); i++ ) {
      int wr = -1; std::vector< std::vector< double > > rows; bool malformed = false;
      for( int k = 0; k < c.nRanks; k++ ) {
        std::ifstream in( dir + "/recv/" + std::to_string( k ) + "/" + c.recvs[i].name + ".csv" );
        if( !in ) continue;
        if( wr >= 0 ) malformed = true;
        wr = k;
        std::string l;
        while( std::getline( in, l ) ) { if( l.empty() || l[0] == '#' || l.compare( 0, 4, "time" ) == 0 ) continue; std::vector< double > r; std::istringstream s( l ); std::string w; while( std::getline( s, w, ',' ) ) { char *e; r.push_back( strtod( w.c_str(), &e ) ); if( *e || w.empty() ) malformed = true; } rows.push_back( r ); }
      }
      if( malformed ) wr = -2;
      (void) basis0;
      o << (i ? "," : "") << "[" << c.recvs[i].e << "," << wr << ",[";
      for( std::size_t j = 0; j < rows.size(); j++ ) {
        std::vector< double > &r = rows[j];
        long t8 = -1, v8 = -1, id = -1;
        if( r.size() == 1 + N_QUANTITIES*N_CRUNS ) {
          double b = edge::dg::Basis::evalBasis( 0, T_SDISC.ELEMENT, 0.25, 0.25, 0.25 );
          double tt = r[0]/c.scale*8; if( std::fabs( tt-std::lround(tt) ) < 0.02 ) t8 = std::lround(tt);
          bool same = true; for( int q = 0; q < N_QUANTITIES; q++ ) for( int k = 0; k < N_CRUNS; k++ ) if( std::fabs( r[1+q*N_CRUNS+k] - r[1+(q%2)*N_CRUNS] ) > 1e-5*( 1+std::fabs( r[1+(q%2)*N_CRUNS] ) ) ) same = false;
          double ii = r[1]/b-1, vv = ( r[1+N_CRUNS]/b - 1 )/2*8;
          if( same && std::fabs( ii-std::lround(ii) ) < 1e-3 ) id = std::lround(ii);
          if( same && std::fabs( vv-std::lround(vv) ) < 0.05 ) v8 = std::lround(vv);
        }
        o << (j ? "," : "") << "[" << t8 << "," << v8 << "," << id << "]";
      }
      o << "]]";
    }
    o << "]}";
    out << o.str() << "\n";
    if( getenv("VFKEEP") || end != "ok" ) { // keep the messages of the failing rank
      for( int k = 0; k < c.nRanks; k++ ) { std::ifstream in( dir + "/err" + std::to_string( k ) ); std::string l; int j = 0; while( j++ < 2000 && std::getline( in, l ) ) fprintf( stderr, "case %d rank %d (%d): %s\n", id, k, status[k], l.c_str() ); }
    }
    rmTree( dir );
    if( getenv( "VFGAP" ) ) fprintf( stderr, "gap %lu of %lu\n", (unsigned long) shm->maxGap, (unsigned long) shm->yields );
    if( end == "hang" || end == "timeout" ) if( ++hangs >= 2 || end == "timeout" ) break;   // enough to tell
  }
  return 0;
}
