#include "rt.h"
#include "case.h"
#include <pthread.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <linux/futex.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <climits>
#include "mpi.h"

namespace vf {
Shm *shm = nullptr;
int g_rank_vf = 0;
__thread int tl_thread = -1;

static void fwait( volatile int *w, int v ) { syscall( SYS_futex, w, FUTEX_WAIT, v, nullptr, nullptr, 0 ); }
static void fwake( volatile int *w ) { syscall( SYS_futex, w, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0 ); }

uint64_t rnd() { // xorshift64*, state in shared memory; only the baton holder calls it
  uint64_t x = shm->rng; x ^= x >> 12; x ^= x << 25; x ^= x >> 27; shm->rng = x; return x * 2685821657736338717ULL >> 16;
}
static int self() { return g_rank_vf*shm->nThreads + tl_thread; }

static void waitTurn( int me ) {
  int spin = 0;
  while( shm->turn != me ) {
    int v = __atomic_load_n( &shm->fut[me], __ATOMIC_SEQ_CST );
    if( shm->turn == me ) break;
    if( spin++ < 50 ) { __builtin_ia32_pause(); continue; }
    fwait( &shm->fut[me], v );
  }
  __sync_synchronize();
}
static void give( int other ) {
  __sync_synchronize();
  shm->turn = other;
  __atomic_add_fetch( &shm->fut[other], 1, __ATOMIC_SEQ_CST );
  fwake( &shm->fut[other] );
}
static unsigned wgt( int a ) { return 1000*( shm->waiting[a] ? 2 : shm->weight[a] ) / ( shm->yields < shm->stall[a] ? 20000 : 1 ) + 1; }
static int pick() {
  if( shm->yields >= shm->nextWeights ) { // new relative speeds: some agents nearly stall for a while
    if( rnd()%3 == 0 ) { // one agent stalls for a long time
      int v = rnd()%shm->nAgents;
      for( int a = 0; a < shm->nAgents; a++ ) shm->weight[a] = a == v ? 1 : 5000;
      shm->nextWeights = shm->yields + 2000 + rnd()%60000;
    }
    else {
    for( int a = 0; a < shm->nAgents; a++ ) { unsigned r = rnd()%8; shm->weight[a] = r == 0 ? 1 : (r < 4 ? 20 : 100); }
    shm->nextWeights = shm->yields + 500 + rnd()%20000;
    }
  }
  uint64_t tot = 0;
  for( int a = 0; a < shm->nAgents; a++ ) if( shm->alive[a] ) tot += wgt( a );
  if( tot == 0 ) return -1;
  uint64_t r = rnd()%tot;
  for( int a = 0; a < shm->nAgents; a++ ) if( shm->alive[a] ) {
    unsigned w = wgt( a );
    if( r < w ) return a;
    r -= w;
  }
  return -1;
}
// the caller (nearly) stalls for a while
static void stallMe( unsigned n ) {
  shm->stall[self()] = shm->yields + n/4 + rnd()%n;
}
// a run which neither computes nor communicates anything anymore hangs
static void budget() {
  uint64_t p = (uint64_t) shm->nEvents + shm->nMsgs + shm->nReqs + shm->nDone;
  if( p != shm->progress ) { if( shm->yields-shm->progressAt > shm->maxGap ) shm->maxGap = shm->yields-shm->progressAt; shm->progress = p; shm->progressAt = shm->yields; }
  if( shm->yields > shm->cap || shm->yields-shm->progressAt > shm->gapCap ) { shm->hang = 1; _exit( 77 ); }
}
void yield() {
  if( tl_thread < 0 ) return;
  shm->yields++;
  budget();
  if( shm->pSwitch > 1 && rnd()%shm->pSwitch != 0 ) return;
  int me = self();
  int o = pick();
  if( o == me || o < 0 ) return;
  shm->switches++;
  give( o );
  waitTurn( me );
}
static void yieldForced() {
  shm->yields++;
  budget();
  int me = self(), o = pick();
  if( o == me || o < 0 ) return;
  shm->switches++;
  give( o ); waitTurn( me );
}
void waitUntil( bool (*cond)(void*), void *arg ) {
  int me = self();
  while( !cond( arg ) ) { shm->waiting[me] = 1; yieldForced(); shm->waiting[me] = 0; }
}
void agentStart( int thread ) {
  tl_thread = thread;
  int me = self();
  waitTurn( me );
}
void agentEnd() {
  int me = self();
  shm->alive[me] = 0;
  int o = pick();
  tl_thread = -1;
  if( o >= 0 ) give( o );
}
void log( Event const & e ) {
  if( shm->nEvents < MAX_EVENTS ) { Event x = e; x.rank = g_rank_vf; x.thread = tl_thread; shm->ev[shm->nEvents++] = x; }
  else { snprintf( shm->fail, sizeof(shm->fail), "event log overflow" ); _exit( 78 ); }
}

// ------------------------------------------------------------------ thread pool (OpenMP stand-in)
struct Pool { void (*fn)(void*); void *data; volatile int gen, left, stop, active; int barCount, barGen; int n; };
static Pool pool;
static pthread_t ths[MAX_THREADS];
static bool started = false;
static __thread int tl_inPar = 0;
struct GenArg { int gen; };
static bool condGen( void *a ) { return pool.gen != *(int*)a || pool.stop; }
static bool condLeft( void * ) { return pool.left == 0; }
static bool condBar( void *a ) { return pool.barGen != *(int*)a; }

static void *worker( void *arg ) {
  int id = (int)(long) arg;
  agentStart( id );
  int seen = 0;
  while( true ) {
    waitUntil( condGen, &seen );
    if( pool.stop ) break;
    seen = pool.gen;
    if( id < pool.n ) { tl_inPar = 1; pool.fn( pool.data ); tl_inPar = 0; pool.left--; }
  }
  agentEnd();
  return nullptr;
}
static void startPool() {
  if( started ) return;
  started = true;
  pthread_attr_t at; pthread_attr_init( &at ); pthread_attr_setstacksize( &at, 16u<<20 );
  for( int t = 1; t < shm->nThreads; t++ ) { // alive is set by the baton holder: deterministic
    if( pthread_create( &ths[t], &at, worker, (void*)(long) t ) ) { snprintf( shm->fail, sizeof(shm->fail), "pthread_create" ); _exit( 78 ); }
    shm->alive[g_rank_vf*shm->nThreads + t] = 1;
  }
}
static void stopPool() {
  if( !started ) return;
  pool.stop = 1;
  // hand over until all workers ended
  struct L { static bool c( void * ) { for( int t = 1; t < shm->nThreads; t++ ) if( shm->alive[g_rank_vf*shm->nThreads+t] ) return false; return true; } };
  waitUntil( L::c, nullptr );
}
}  // namespace vf

using namespace vf;
extern "C" {
void GOMP_parallel( void (*fn)(void*), void *data, unsigned nt, unsigned ) {
  if( tl_thread < 0 || tl_inPar || shm->nThreads == 1 ) { int s = tl_inPar; tl_inPar = s ? s : 1; fn( data ); tl_inPar = s; return; }
  startPool();
  pool.fn = fn; pool.data = data; pool.n = (nt > 0 && (int) nt < shm->nThreads) ? (int) nt : shm->nThreads; pool.left = pool.n-1; pool.barCount = 0;
  pool.gen++;
  tl_inPar = 1;
  fn( data );
  tl_inPar = 0;
  waitUntil( condLeft, nullptr );
}
void GOMP_barrier() {
  if( tl_thread < 0 || !tl_inPar || shm->nThreads == 1 ) return;
  int g = pool.barGen;
  if( ++pool.barCount == pool.n ) { pool.barCount = 0; pool.barGen++; }
  else waitUntil( condBar, &g );
}
static int critOwner = -1;
static bool condCrit( void * ) { return critOwner < 0; }
void GOMP_critical_start() { if( tl_thread < 0 ) return; waitUntil( condCrit, nullptr ); critOwner = tl_thread; }
void GOMP_critical_end() { if( tl_thread < 0 ) return; critOwner = -1; }
void GOMP_critical_name_start( void ** ) { GOMP_critical_start(); }
void GOMP_critical_name_end( void ** ) { GOMP_critical_end(); }
void GOMP_atomic_start() { GOMP_critical_start(); }
void GOMP_atomic_end() { GOMP_critical_end(); }
bool GOMP_single_start() { return tl_thread <= 0; }
int omp_get_thread_num() { return (tl_thread < 0 || !tl_inPar) ? 0 : tl_thread; }
int omp_get_num_threads() { return (tl_thread < 0 || !tl_inPar || shm->nThreads == 1) ? 1 : pool.n; }
int omp_get_max_threads() { return shm ? shm->nThreads : 1; }
int omp_in_parallel() { return tl_inPar; }
int omp_get_num_procs() { return 8; }
void omp_set_num_threads( int ) {}
int omp_get_num_places() { return 0; }
int omp_get_place_num() { return -1; }
double omp_get_wtime() { return shm->clockUs * 1e-6; }

// virtual clock: advances by a random amount per query, so that the load balancing sees arbitrary measurements
int gettimeofday( struct timeval *tv, void * ) throw() {
  if( !shm ) { if( tv ) { tv->tv_sec = 0; tv->tv_usec = 0; } return 0; }
  if( tl_thread >= 0 ) { uint64_t r = rnd(); shm->clockUs += (r%4 == 0) ? 0 : (r%4 == 1 ? r/4%100 : r/4%20000); }
  tv->tv_sec = shm->clockUs / 1000000; tv->tv_usec = shm->clockUs % 1000000;
  return 0;
}

// file output takes its time
static void slowIo( int fd ) { if( fd > 2 && tl_thread >= 0 && shm ) for( uint64_t i = rnd()%2 ? rnd()%3000 : 0; i > 0; i-- ) yield(); }
ssize_t write( int fd, const void *b, size_t n ) { slowIo( fd ); ssize_t r = syscall( SYS_write, fd, b, n ); slowIo( fd ); return r; }
ssize_t writev( int fd, const struct iovec *v, int n ) { slowIo( fd ); ssize_t r = syscall( SYS_writev, fd, v, n ); slowIo( fd ); return r; }

// ------------------------------------------------------------------ instrumentation of memory accesses
#define VF_Y1(n) void n( void * ) { yield(); }
#define VF_RW(s) VF_Y1(__tsan_read##s) VF_Y1(__tsan_write##s) VF_Y1(__tsan_unaligned_read##s) VF_Y1(__tsan_unaligned_write##s) VF_Y1(__tsan_volatile_read##s) VF_Y1(__tsan_volatile_write##s) VF_Y1(__tsan_unaligned_volatile_read##s) VF_Y1(__tsan_unaligned_volatile_write##s)
VF_RW(1) VF_RW(2) VF_RW(4) VF_RW(8) VF_RW(16)
void __tsan_init() {}
void __tsan_func_entry( void * ) {}
void __tsan_func_exit( void ) {}
void __tsan_read_range( void *, unsigned long ) { yield(); }
void __tsan_write_range( void *, unsigned long ) { yield(); }
void __tsan_vptr_update( void **p, void *v ) { (void) p; (void) v; }
void __tsan_vptr_read( void ** ) {}
void __tsan_atomic_thread_fence( int ) { __sync_synchronize(); yield(); }
void __tsan_atomic_signal_fence( int ) {}
#define VF_AT(T,s) \
  T __tsan_atomic##s##_load( const volatile T *a, int ) { yield(); return *a; } \
  void __tsan_atomic##s##_store( volatile T *a, T v, int ) { yield(); *a = v; } \
  T __tsan_atomic##s##_exchange( volatile T *a, T v, int ) { yield(); T o = *a; *a = v; return o; } \
  T __tsan_atomic##s##_fetch_add( volatile T *a, T v, int ) { yield(); T o = *a; *a = o+v; return o; } \
  T __tsan_atomic##s##_fetch_sub( volatile T *a, T v, int ) { yield(); T o = *a; *a = o-v; return o; } \
  T __tsan_atomic##s##_fetch_and( volatile T *a, T v, int ) { yield(); T o = *a; *a = o&v; return o; } \
  T __tsan_atomic##s##_fetch_or( volatile T *a, T v, int ) { yield(); T o = *a; *a = o|v; return o; } \
  int __tsan_atomic##s##_compare_exchange_strong( volatile T *a, T *c, T v, int, int ) { yield(); if( *a == *c ) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##s##_compare_exchange_weak( volatile T *a, T *c, T v, int, int ) { yield(); if( *a == *c ) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##s##_compare_exchange_val( volatile T *a, T c, T v, int, int ) { yield(); T o = *a; if( o == c ) *a = v; return o; }
VF_AT(unsigned char,8) VF_AT(unsigned short,16) VF_AT(unsigned int,32) VF_AT(unsigned long,64)
}

// ------------------------------------------------------------------ MPI stand-in
// Messages of one (source, destination, tag) are matched in order; across tags anything goes. A send transfers its data
// either right away (eager), or at some later moment up to its completion: the data is read when it is transferred.
static bool yieldMpi() { if( rnd()%8 == 0 ) yield(); return true; }   // the progress loop of the code under test polls hundreds of times
static int findMsg( int src, int dst, int tag ) {
  for( int m = 0; m < shm->nMsgs; m++ ) if( !shm->msgs[m].matched && shm->msgs[m].src == src && shm->msgs[m].dst == dst && shm->msgs[m].tag == tag ) return m;
  return -1;
}
static int newReq() {
  for( int r = 1; r < shm->nReqs; r++ ) if( !shm->reqs[r].used ) { memset( &shm->reqs[r], 0, sizeof(Req) ); return r; }
  if( shm->nReqs >= MAX_REQS ) { snprintf( shm->fail, sizeof(shm->fail), "too many requests" ); _exit( 78 ); }
  memset( &shm->reqs[shm->nReqs], 0, sizeof(Req) );
  return shm->nReqs++;
}
static void copyOut( Msg &m, const void *buf ) { memcpy( m.data, buf, m.size ); m.copied = true; }

extern "C" {
int MPI_Initialized( int *f ) { *f = 0; return MPI_SUCCESS; }
int MPI_Init( int *, char *** ) { return MPI_SUCCESS; }
int MPI_Init_thread( int *, char ***, int, int *p ) { *p = MPI_THREAD_FUNNELED; return MPI_SUCCESS; }
int MPI_Comm_size( MPI_Comm, int *s ) { *s = shm->nRanks; return MPI_SUCCESS; }
int MPI_Comm_rank( MPI_Comm, int *r ) { *r = g_rank_vf; return MPI_SUCCESS; }
int MPI_Get_version( int *a, int *b ) { *a = 3; *b = 1; return MPI_SUCCESS; }
int MPI_Finalize() { return MPI_SUCCESS; }
static bool condBarM( void *a ) { return shm->barGen != *(int*) a; }
int MPI_Barrier( MPI_Comm ) {
  int g = shm->barGen;
  if( ++shm->barCount == shm->nRanks ) { shm->barCount = 0; shm->barGen++; }
  else waitUntil( condBarM, &g );
  return MPI_SUCCESS;
}
static bool condRed( void *a ) { return shm->redGen != *(int*) a; }
static bool condRedFree( void * ) { return shm->redLeft == 0; }
int MPI_Allreduce( const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ) {
  if( n > 4096 ) abort();
  waitUntil( condRedFree, nullptr );
  for( int i = 0; i < n; i++ ) shm->redBuf[g_rank_vf][i] = t == MPI_DOUBLE ? ((const double*) in)[i] : t == MPI_INT ? ((const int*) in)[i] : t == MPI_UNSIGNED_LONG ? ((const unsigned long*) in)[i] : t == MPI_FLOAT ? ((const float*) in)[i] : ((const unsigned short*) in)[i];
  int g = shm->redGen;
  if( ++shm->redCount == shm->nRanks ) { shm->redCount = 0; shm->redLeft = shm->nRanks; shm->redGen++; }
  else waitUntil( condRed, &g );
  for( int i = 0; i < n; i++ ) {
    double v = shm->redBuf[0][i];
    for( int r = 1; r < shm->nRanks; r++ ) { double w = shm->redBuf[r][i]; v = op == MPI_MIN ? std::fmin(v,w) : op == MPI_MAX ? std::fmax(v,w) : v+w; }
    if( t == MPI_DOUBLE ) ((double*) out)[i] = v; else if( t == MPI_INT ) ((int*) out)[i] = (int) v; else if( t == MPI_UNSIGNED_LONG ) ((unsigned long*) out)[i] = (unsigned long) v; else if( t == MPI_FLOAT ) ((float*) out)[i] = (float) v; else ((unsigned short*) out)[i] = (unsigned short) v;
  }
  shm->redLeft--;
  return MPI_SUCCESS;
}
int MPI_Isend( const void *buf, int n, MPI_Datatype, int dst, int tag, MPI_Comm, MPI_Request *rq ) {
  yieldMpi();
  int r = newReq();
  Req &q = shm->reqs[r];
  q.used = true; q.send = true; q.rank = g_rank_vf; q.peer = dst; q.tag = tag; q.buf = (void*) buf; q.size = n;
  // reuse a consumed message slot (keeps the order: the slot list is compacted)
  int w = 0;
  for( int m = 0; m < shm->nMsgs; m++ ) { Msg &x = shm->msgs[m]; if( x.delivered && x.copied && x.req < 0 ) continue; if( w != m ) { shm->msgs[w] = x; for( int k = 1; k < shm->nReqs; k++ ) if( shm->reqs[k].used && shm->reqs[k].msg == m+1 ) shm->reqs[k].msg = w+1; } w++; }
  shm->nMsgs = w;
  if( shm->nMsgs >= MAX_MSGS ) { snprintf( shm->fail, sizeof(shm->fail), "too many messages" ); _exit( 78 ); }
  Msg &m = shm->msgs[shm->nMsgs];
  m.src = g_rank_vf; m.dst = dst; m.tag = tag; m.size = n; m.matched = m.delivered = m.copied = false; m.req = r;
  if( shm->arenaUsed + n > shm->arenaSize ) { snprintf( shm->fail, sizeof(shm->fail), "message arena exhausted" ); _exit( 78 ); }
  m.data = shm->arena + shm->arenaUsed; shm->arenaUsed += (n + 63) / 64 * 64;
  q.msg = ++shm->nMsgs;
  q.mode = (int)(rnd()%100) < shm->eagerPct ? 0 : (rnd()%2 ? 1 : 2);  // 0: eager, 1: transferred late, 2: transferred at completion
  if( q.mode == 0 ) { copyOut( m, buf ); { q.done = true; shm->nDone++; } }
  *rq = (MPI_Request)(long) r;
  return MPI_SUCCESS;
}
int MPI_Irecv( void *buf, int n, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Request *rq ) {
  yieldMpi();
  int r = newReq();
  Req &q = shm->reqs[r];
  q.used = true; q.send = false; q.rank = g_rank_vf; q.peer = src; q.tag = tag; q.buf = buf; q.size = n; q.seq = ++shm->seq;
  memset( buf, 0xff, n );   // undefined until completion
  *rq = (MPI_Request)(long) r;
  return MPI_SUCCESS;
}
// any MPI call of a rank may progress all of its requests; receives are matched in the order in which they were posted
static void progress() {
  while( true ) {
    int best = 0, bm = -1;
    for( int r = 1; r < shm->nReqs; r++ ) { Req &q = shm->reqs[r]; if( q.used && !q.send && q.rank == g_rank_vf && q.msg == 0 && (!best || q.seq < shm->reqs[best].seq) ) { int m = findMsg( q.peer, q.rank, q.tag ); if( m >= 0 ) { best = r; bm = m; } } }
    if( !best ) break;
    shm->msgs[bm].matched = true; shm->reqs[best].msg = bm+1;
  }
  for( int r = 1; r < shm->nReqs; r++ ) {
    Req &q = shm->reqs[r];
    if( !q.used || !q.send || q.rank != g_rank_vf || q.done ) continue;
    Msg &m = shm->msgs[q.msg-1];
    if( q.mode == 2 && !m.matched ) continue;   // synchronous: the data is read after the receive was posted
    if( !m.copied && rnd()%4 == 0 ) { copyOut( m, q.buf ); q.done = q.mode == 1 || rnd()%2; }
    else if( m.copied && rnd()%2 ) { q.done = true; shm->nDone++; }
  }
}
int MPI_Test( MPI_Request *rq, int *flag, MPI_Status * ) {
  long r = (long) *rq;
  if( r == 0 ) { *flag = 1; return MPI_SUCCESS; }
  yieldMpi();
  Req &q = shm->reqs[r];
  *flag = 0;
  progress();
  if( q.send ) {
    if( q.done && rnd()%3 != 0 ) { *flag = 1; shm->msgs[q.msg-1].req = -1; q.used = false; *rq = MPI_REQUEST_NULL; }
  }
  else if( q.msg != 0 ) {
    Msg &m = shm->msgs[q.msg-1];
    if( m.copied && rnd()%3 != 0 ) {
      if( m.size != q.size ) shm->sizeErr++;
      memcpy( q.buf, m.data, m.size < q.size ? m.size : q.size );
      m.delivered = true; shm->nDone++; *flag = 1; q.used = false; q.msg = 0; *rq = MPI_REQUEST_NULL;
    }
  }
  return MPI_SUCCESS;
}
int MPI_Wait( MPI_Request *rq, MPI_Status * ) { int f = 0; while( !f ) MPI_Test( rq, &f, nullptr ); return MPI_SUCCESS; }
int MPI_Waitall( int n, MPI_Request *rq, MPI_Status * ) {
  // all of them progress
  bool all = false;
  while( !all ) { all = true; for( int i = 0; i < n; i++ ) { int f = 0; MPI_Test( rq+i, &f, nullptr ); if( !f ) all = false; } }
  return MPI_SUCCESS;
}
int MPI_Testall( int n, MPI_Request *rq, int *flag, MPI_Status * ) { *flag = 1; for( int i = 0; i < n; i++ ) { int f = 0; MPI_Test( rq+i, &f, nullptr ); if( !f ) *flag = 0; } return MPI_SUCCESS; }
int MPI_Iprobe( int, int, MPI_Comm, int *f, MPI_Status * ) { *f = 0; return MPI_SUCCESS; }
int MPI_Abort( MPI_Comm, int ) { abort(); }
}

// ------------------------------------------------------------------ kernels
// Token of a time integral of element id over [a,b]: four functions which are additive in the interval.
static const unsigned char *dofsBase = nullptr; static std::size_t dofsStride = 0;
static double W( int i ) { return 1.0 + i%97; }
static double tok( int c, double id, double a, double b ) {
  switch( c ) { case 0: return b*b-a*a; case 1: return b-a; case 2: return (id+1)*(b-a); case 3: return b*b*b-a*a*a; }
  return 0;
}
static void enc( double *o, int n, int nc, double id, double a, double b, double code ) {
  for( int i = 0; i < n; i++ ) o[i] = W(i) * ( i%nc < 4 ? tok( i%nc, id, a, b ) : (code+1)*(b-a) );
}
// decodes; returns false if the entries are inconsistent
static bool dec( const double *p, int n, int nc, double &id, double &a, double &b, double &code ) {
  double f[5]; bool have[5] = {false,false,false,false,false};
  for( int i = 0; i < n; i++ ) { double v = p[i]/W(i); int c = i%nc; if( !have[c] ) { f[c] = v; have[c] = true; } else if( !(std::fabs(f[c]-v) < 1e-7*(1+std::fabs(v))) ) return false; }
  double L = f[1];
  if( !(std::fabs(L) < 1e12) ) return false;
  if( std::fabs(L) < 1e-12 ) { id = -1; code = -1; a = b = 0; return std::fabs(f[0]) < 1e-9 && std::fabs(f[2]) < 1e-9 && std::fabs(f[3]) < 1e-9; }
  id = f[2]/L - 1; double s = f[0]/L; a = (s-L)/2; b = (s+L)/2;
  code = nc > 4 ? f[4]/L - 1 : -1;
  return std::fabs( f[3] - (b*b*b-a*a*a) ) < 1e-6*(1+std::fabs(f[3]));
}
static int q2( double t ) { return (int) std::lround( t*2 ); }   // half integers
static bool isHalf( double t ) { return std::fabs( t*2 - std::lround(t*2) ) < 1e-6; }
static int elOf( const void *dofsE ) {
  std::ptrdiff_t d = (const unsigned char*) dofsE - dofsBase;
  if( dofsBase == nullptr || d < 0 || d % (std::ptrdiff_t) dofsStride != 0 ) return -1;
  d /= (std::ptrdiff_t) dofsStride;
  if( d >= (std::ptrdiff_t) g_case->ranks[g_rank_vf].nEls ) return -1;
  return g_case->ranks[g_rank_vf].gid[d];
}
static int locOf( const void *dofsE ) { return (int)( ((const unsigned char*) dofsE - dofsBase) / (std::ptrdiff_t) dofsStride ); }
// element-indexed constant data: consistent with a single base address?
static const unsigned char *matBase[4] = {nullptr,nullptr,nullptr,nullptr};
static int matOk( int k, const void *p, std::size_t stride, int idx ) {
  if( p == nullptr || stride == 0 ) return 1;
  const unsigned char *b = (const unsigned char*) p - stride*idx;
  if( matBase[k] == nullptr ) matBase[k] = b;
  return matBase[k] == b;
}
static Event mk( Kind k, int e ) { Event x; memset( &x, 0, sizeof(x) ); x.kind = k; x.e = e; x.f = -1; x.n = -1; x.fa2 = -1; x.v = -1; x.mat = 1; return x; }

// a kernel works on the dofs of an element: concurrent kernels of the same element race (mat = 2)
struct Busy {
  int e; bool first, race;
  Busy( int el ): e(el), first(false), race(false) { if( e < 0 || e >= 4096 || tl_thread < 0 ) return; if( shm->busy[e] == 0 ) { shm->busy[e] = tl_thread+1; first = true; } else race = true; }
  ~Busy() { if( first ) shm->busy[e] = 0; }
  void mark( Event &x ) { if( race ) x.mat = 2; }
};

extern "C" {
void vf_set_dofs_base( const void *base, std::size_t s ) { dofsBase = (const unsigned char*) base; dofsStride = s; }
void vf_ck( double dt, const void *star, std::size_t ss, const void *dofsE, const void *dofsA, std::size_t sa, double *der, double *tDofs, int n ) {
  Busy bz( elOf( dofsE ) ); yield();
  int e = elOf( dofsE );
  Event x = mk( EV_CK, e );
  if( g_case->stress == 3 && e >= 0 && g_case->tg[e] < 2 && rnd()%8 == 0 ) stallMe( 30000 );
  if( e >= 0 ) {
    dt /= g_case->scale;
    double a = shm->clock[e], b = a+dt;
    if( std::fabs( b-a ) < 1e-9 ) b = a; else if( isHalf(b) ) b = std::lround( b*2 )/2.0;  // times are recorded in exact units
    shm->clock[e] = b;
    x.a = q2(a); x.b = q2(b); x.via = isHalf(a) && isHalf(b);
    x.mat = matOk( 0, star, ss, locOf(dofsE) ) && matOk( 1, dofsA, sa, locOf(dofsE) );
    der[0] = a; der[1] = e;
    enc( tDofs, n, 4, e, a, b, 0 );
  }
  bz.mark( x ); log( x );
  yield();
}
void vf_integrate( double dt, const double *der, double *tDofs, int n ) { yield(); dt /= g_case->scale; if( std::fabs(dt) < 1e-9 ) dt = 0; else if( isHalf(dt) ) dt = std::lround( dt*2 )/2.0; enc( tDofs, n, 4, der[1], der[0], der[0]+dt, 0 ); yield(); }
void vf_eval( double t, const double *der, double *out, int nQ, int nM, int nC ) {
  int el = (int) std::lround( der[1] );
  if( tl_thread >= 0 && rnd()%( g_case->stress == 3 && el >= 0 && el < (int) g_case->tg.size() && g_case->tg[el] >= 2 ? 15 : 200 ) == 0 ) stallMe( 60000 );
  yield();
  for( int q = 0; q < nQ; q++ ) for( int m = 0; m < nM; m++ ) for( int c = 0; c < nC; c++ )
    out[(q*nM+m)*nC+c] = m > 0 ? 0 : (q%2 == 0 ? der[1]+1 : 2*(der[0]+t/g_case->scale)+1);
  yield();
}
static void ownTok( Event &x, const double *t, int n ) {
  double id, a, b, c;
  bool ok = dec( t, n, 4, id, a, b, c );
  x.via = ok && isHalf(a) && isHalf(b);
  x.n = ok ? (int) std::lround( id ) : -2; x.a = ok ? q2(a) : 0; x.b = ok ? q2(b) : 0;
}
void vf_vol( const void *star, std::size_t ss, const double *tDofs, const void *dofsE, const void *dofsA, std::size_t sa, int n ) {
  Busy bz( elOf( dofsE ) ); yield();
  Event x = mk( EV_VOL, elOf( dofsE ) );
  ownTok( x, tDofs, n );
  if( x.e >= 0 ) x.mat = matOk( 0, star, ss, locOf(dofsE) ) && matOk( 1, dofsA, sa, locOf(dofsE) );
  bz.mark( x ); log( x );
  yield();
}
void vf_loc( const void *fs, std::size_t ss, const double *tDofs, const void *dofsE, const void *dofsA, std::size_t sa, int n ) {
  Busy bz( elOf( dofsE ) ); yield();
  Event x = mk( EV_LOC, elOf( dofsE ) );
  ownTok( x, tDofs, n );
  if( x.e >= 0 ) x.mat = matOk( 2, fs, ss, locOf(dofsE) ) && matOk( 1, dofsA, sa, locOf(dofsE) );
  bz.mark( x ); log( x );
  yield();
}
void vf_flux( int fId, int vId, int fa, const double *tDofs, int n, double *send, int nSend ) {
  (void) fId;
  yield();
  double id, a, b, c;
  bool ok = dec( tDofs, n, 4, id, a, b, c );
  if( ok ) { if( id < 0 ) { id = 0; a = b = 0; } enc( send, nSend, 5, id, a, b, fa*10 + vId ); }
  else for( int i = 0; i < nSend; i++ ) send[i] = NAN;
  yield();
}
void vf_nei( int fa, int vId, int fId, const void *fs, std::size_t ss, int nFas, const double *tDofs, int n, const double *recv, int nRecv, const void *dofsE ) {
  Busy bz( elOf( dofsE ) ); yield();
  Event x = mk( EV_NEI, elOf( dofsE ) );
  double id = -1, a = 0, b = 0, code = -1;
  bool ok = recv ? dec( recv, nRecv, 5, id, a, b, code ) : dec( tDofs, n, 4, id, a, b, code );
  ok = ok && isHalf(a) && isHalf(b);
  x.f = fa; x.n = ok ? (int) std::lround(id) : -2; x.a = ok ? q2(a) : 0; x.b = ok ? q2(b) : 0;
  x.via = recv ? 1 : 0;
  if( recv ) { int k = ok ? (int) std::lround(code) : -1; x.fa2 = k < 0 ? -1 : k/10; x.v = k < 0 ? -1 : k%10; }
  else { x.fa2 = fId == 65535 ? -1 : fId; x.v = vId == 65535 ? -1 : vId; }
  if( x.e >= 0 ) x.mat = matOk( 3, fs, ss, locOf(dofsE)*nFas + fa );
  bz.mark( x ); log( x );
  yield();
}
void vf_src( std::size_t first, std::size_t size, double t1, double t2, const void *dofs ) {
  RankCase &rc = g_case->ranks[g_rank_vf];
  t1 /= g_case->scale; t2 /= g_case->scale;
  for( std::size_t s = first; s < first+size; s++ ) {
    Busy bz( s < rc.srcs.size() ? rc.gid[ rc.srcs[s] ] : -1 );
    yield();
    Event x = mk( EV_SRC, s < rc.srcs.size() ? rc.gid[ rc.srcs[s] ] : -1 );
    x.a = q2(t1); x.b = q2(t2); x.via = isHalf(t1) && isHalf(t2); x.mat = dofs == dofsBase;
    bz.mark( x ); log( x );
    yield();
  }
}
int vf_is_source( std::size_t l ) { RankCase &rc = g_case->ranks[g_rank_vf]; for( auto s: rc.srcs ) if( s == l ) return 1; return 0; }
}

namespace vf {
void rankRun( int rank, int (*entry)(void*), void *arg ) {
  g_rank_vf = rank;
  agentStart( 0 );
  int rc = entry( arg );
  (void) rc;
  stopPool();
  agentEnd();
}
}
