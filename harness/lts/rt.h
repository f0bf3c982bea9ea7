// Runtime of the concurrency harness: all threads of all (simulated) ranks run under a global, seeded baton.
#ifndef VF_RT_H
#define VF_RT_H
#include <cstddef>
#include <cstdint>

namespace vf {
  enum { MAX_RANKS = 4, MAX_THREADS = 8, MAX_AGENTS = MAX_RANKS*MAX_THREADS, MAX_MSGS = 8192, MAX_REQS = 65536, MAX_EVENTS = 1<<18 };

  struct Event { int kind, rank, thread, e, f, a, b, n, fa2, v, via, mat; };
  enum Kind { EV_CK = 0, EV_VOL = 1, EV_LOC = 2, EV_SRC = 3, EV_NEI = 4, EV_BAD = 5 };

  struct Msg { int src, dst, tag; std::size_t size; int req; bool matched; bool delivered; unsigned char *data; std::size_t cap; bool eager; bool copied; };
  struct Req { bool used, send, done; int rank, peer, tag; void *buf; std::size_t size; int msg; int mode; uint64_t seq; };

  struct Shm {
    volatile int turn;             // agent holding the baton
    volatile int fut[MAX_AGENTS];  // futex words
    volatile int alive[MAX_AGENTS];
    volatile int waiting[MAX_AGENTS];  // 1: blocked on a predicate (polls rarely)
    unsigned weight[MAX_AGENTS];
    uint64_t stall[MAX_AGENTS];        // nearly stalled until this many yields
    int nAgents, nThreads;
    uint64_t rng;
    uint64_t yields, switches, cap;
    uint64_t progress, progressAt, gapCap, maxGap, nDone;   // last progress of the run, largest admitted and largest seen gap
    uint64_t nextWeights;
    unsigned pSwitch;              // a switch happens with probability 1/pSwitch at a yield point
    volatile int hang;
    uint64_t clockUs;
    // MPI
    int nRanks;
    int nMsgs, nReqs; uint64_t seq;
    Msg msgs[MAX_MSGS];
    Req reqs[MAX_REQS];
    unsigned char *arena; std::size_t arenaUsed, arenaSize;
    int sizeErr, eagerPct;
    volatile int barCount, barGen;
    volatile int redCount, redGen, redLeft;
    double redBuf[MAX_RANKS][4096];
    // per-element clocks (in global element ids), times are doubled integers
    double clock[4096];
    // thread which currently works on the dofs of an element (+1)
    int busy[4096];
    // events
    int nEvents;
    Event ev[MAX_EVENTS];
    char fail[4096];
  };
  extern Shm *shm;
  extern int g_rank_vf;               // rank of this process
  extern __thread int tl_thread;      // thread within the rank, -1: not an agent

  uint64_t rnd();
  void yield();                        // potential context switch
  void waitUntil( bool (*cond)(void*), void *arg );
  void agentStart( int thread );
  void agentEnd();
  void log( Event const & e );
  void rankRun( int rank, int (*entry)(void*), void *arg );
}
extern "C" {
  // un-instrumented bodies of the mock kernels
  void vf_set_dofs_base( const void *base, std::size_t strideBytes );
  void vf_ck( double dt, const void *star, std::size_t starStride, const void *dofsE, const void *dofsA, std::size_t dofsAStride, double *der0, double *tDofs, int n );
  void vf_integrate( double dt, const double *der, double *tDofs, int n );
  void vf_eval( double t, const double *der, double *out, int nQts, int nMds, int nCrs );
  void vf_vol( const void *star, std::size_t starStride, const double *tDofs, const void *dofsE, const void *dofsA, std::size_t dofsAStride, int n );
  void vf_loc( const void *fs, std::size_t fsStride, const double *tDofs, const void *dofsE, const void *dofsA, std::size_t dofsAStride, int n );
  void vf_flux( int fId, int vId, int fa, const double *tDofs, int n, double *send, int nSend );
  void vf_nei( int fa, int vId, int fId, const void *fs, std::size_t fsStride, int nFas, const double *tDofs, int n, const double *recv, int nRecv, const void *dofsE );
  void vf_src( std::size_t first, std::size_t size, double t1, double t2, const void *dofs );
  int  vf_is_source( std::size_t localEl );
}
#endif
