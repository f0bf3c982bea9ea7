// A generated test case: a global face graph of elements with time groups, split into ranks.
#ifndef VF_CASE_H
#define VF_CASE_H
#include <cstddef>
#include <string>
#include <vector>
namespace vf {
  struct RankCase {
    std::size_t nEls = 0, nElsIn = 0, nElsSe = 0;
    std::vector< int > gid;                      // local to global
    std::vector< std::size_t > nIn, nSe;         // per time group
    std::vector< std::size_t > elVe, elFa, elFaEl, faVe, faEl;
    std::vector< unsigned short > fId, vId;      // per element-face
    std::vector< int > spFa, spEl, spVe;
    std::vector< double > crds, nrm, tan, areas, vols, inDia;
    std::vector< std::size_t > comm, sendEl, recvEl;
    std::vector< unsigned short > sendFa, recvFa, sendVe, sendFi;
    std::vector< std::size_t > srcs;             // local ids of elements with sources, ascending
  };
  struct Face { int kind; int e, f, vid; };      // kind 0: neighbour (e,f), 1: outflow, 2: free surface; vid: vertex id as seen from here
  struct Recv { int e; std::string name; double x, y, z; };
  struct Case {
    int id, stress, nRanks, nThreads, nTgs, nFas, nVes, sepWrks;
    double dt, endTime, syncInt, freq, scale;   // in units of scale
    std::vector< double > syncs;                 // durations of the simulate-calls
    std::vector< int > tg, rank, loc;
    std::vector< std::vector< Face > > fa;
    std::vector< char > src;
    std::vector< Recv > recvs;
    std::vector< double > relDt;
    RankCase ranks[4];
    unsigned pSwitch; int eagerPct; unsigned long seed;
  };
  extern Case *g_case;
  void generate( Case & c, unsigned long seed, int id, bool mpi, int nFas, int nVes, int nDim, double const *refCrds, int stress, double vp );  // vp: velocity of the (elastic) p-waves, which determines the CFL time step
  void writeXml( Case const & c, std::string const & xml, std::string const & dir, int nCruns, int nRms );
}
#endif
