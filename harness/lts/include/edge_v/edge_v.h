// Stand-in for EDGE-V's interface: the mesh and its annotations come from the generated case in memory.
#ifndef VF_EDGE_V_H
#define VF_EDGE_V_H
#include "tools/edge_v/src/constants.h"
#include "case.h"
#include "rt.h"
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
namespace edge_v {
namespace io {
class Gmsh { public: void setNumber( std::string const &, double ) {} void open( std::string const & ) {} void readMesh() {} };
class Hdf5 {
  template< typename T > static void cp( std::vector< T > const & v, T *o ) { for( std::size_t i = 0; i < v.size(); i++ ) o[i] = v[i]; }
  vf::RankCase & rc() const { return vf::g_case->ranks[vf::g_rank_vf]; }
  public:
    Hdf5( std::string const &, bool = true, std::string const & = "/edge_v" ) {}
    bool exists( std::string const & n ) const {
      if( n == "/edge_v/n_time_group_elements_inner" || n == "/edge_v/n_time_group_elements_send" || n == "/edge_v/relative_time_steps" ) return true;
      if( vf::g_case->nRanks > 1 ) return n == "/edge_v/communication_structure" || n == "/edge_v/send_el" || n == "/edge_v/send_fa" || n == "/edge_v/recv_el" || n == "/edge_v/recv_fa" || n == "/edge_v/send_vertex_ids" || n == "/edge_v/send_face_ids";
      return false;
    }
    std::size_t nVas( std::string const & n ) const {
      if( n == "/edge_v/n_time_group_elements_inner" || n == "/edge_v/n_time_group_elements_send" ) return vf::g_case->nTgs;
      if( n == "/edge_v/relative_time_steps" ) return vf::g_case->nTgs+1;
      if( n == "/edge_v/communication_structure" ) return rc().comm.size();
      if( exists( n ) ) return rc().sendEl.size();
      return 0;
    }
    void get( std::string const & n, std::size_t *o ) const {
      if( n == "/edge_v/n_time_group_elements_inner" ) cp( rc().nIn, o );
      else if( n == "/edge_v/n_time_group_elements_send" ) cp( rc().nSe, o );
      else if( n == "/edge_v/communication_structure" ) cp( rc().comm, o );
      else if( n == "/edge_v/send_el" ) cp( rc().sendEl, o );
      else if( n == "/edge_v/recv_el" ) cp( rc().recvEl, o );
      else abort();
    }
    void get( std::string const & n, unsigned short *o ) const {
      if( n == "/edge_v/send_fa" ) cp( rc().sendFa, o );
      else if( n == "/edge_v/recv_fa" ) cp( rc().recvFa, o );
      else if( n == "/edge_v/send_vertex_ids" ) cp( rc().sendVe, o );
      else if( n == "/edge_v/send_face_ids" ) cp( rc().sendFi, o );
      else abort();
    }
    void get( std::string const & n, double *o ) const { if( n == "/edge_v/relative_time_steps" ) cp( vf::g_case->relDt, o ); else abort(); }
    void get( std::string const &, float * ) const { abort(); }
};
}
namespace mesh {
class Mesh {
  vf::RankCase & rc() const { return vf::g_case->ranks[vf::g_rank_vf]; }
  public:
    Mesh( io::Gmsh const &, int = 0 ) {}
    t_entityType getTypeEl() const {
#if defined PP_T_ELEMENTS_TRIA3
      return TRIA3;
#elif defined PP_T_ELEMENTS_TET4
      return TET4;
#elif defined PP_T_ELEMENTS_QUAD4R
      return QUAD4R;
#elif defined PP_T_ELEMENTS_HEX8R
      return HEX8R;
#endif
    }
    std::size_t nVes() const { return rc().crds.size()/3; }
    std::size_t nFas() const { return rc().areas.size(); }
    std::size_t nEls() const { return rc().nEls; }
    std::size_t const * getFaVe() const { return rc().faVe.data(); }
    std::size_t const * getFaEl() const { return rc().faEl.data(); }
    std::size_t const * getElVe() const { return rc().elVe.data(); }
    std::size_t const * getElFa() const { return rc().elFa.data(); }
    std::size_t const * getElFaEl() const { return rc().elFaEl.data(); }
    double const (* getVeCrds() const)[3] { return (double const (*)[3]) rc().crds.data(); }
    double const (* getNormalsFa() )[3] { return (double const (*)[3]) rc().nrm.data(); }
    double const (* getTangentsFa() )[2][3] { return (double const (*)[2][3]) rc().tan.data(); }
    double const * getAreasFa() { return rc().areas.data(); }
    double const * getVolumesEl() { return rc().vols.data(); }
    double const * getInDiasEl() { return rc().inDia.data(); }
    t_sparseType const * getSpTypeVe() const { return rc().spVe.data(); }
    t_sparseType const * getSpTypeFa() const { return rc().spFa.data(); }
    t_sparseType const * getSpTypeEl() const { return rc().spEl.data(); }
    void getVeIdsAd( std::size_t n, std::size_t off, std::size_t const *el, unsigned short const *fa, unsigned short *o ) const { for( std::size_t i = 0; i < n; i++ ) o[i] = rc().vId[ (el[i]+off)*vf::g_case->nFas + fa[i] ]; }
    void getFaIdsAd( std::size_t n, std::size_t off, std::size_t const *el, unsigned short const *fa, unsigned short *o ) const { for( std::size_t i = 0; i < n; i++ ) o[i] = rc().fId[ (el[i]+off)*vf::g_case->nFas + fa[i] ]; }
};
}
}
#endif
