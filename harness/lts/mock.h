// Replaces the leaves of the solver (numerical kernels, source files, initial values) by recording stand-ins.
#ifndef VF_MOCK_H
#define VF_MOCK_H
#define EDGE_SEISMIC_KERNELS_KERNELS_HPP
#define EDGE_SEISMIC_SETUPS_POINT_SOURCES_HPP
#define EDGE_INITIAL_DOFS_HPP
#include "rt.h"
#include "constants.hpp"
#include "data/Dynamic.h"
#include <string>
#include <vector>
namespace edge { namespace seismic { namespace kernels {
template< typename R, unsigned short NRM, t_entityType EL, unsigned short OSP, unsigned short OTI, unsigned short NCR >
struct VfBase {
  static unsigned short const DIS = C_ENT[EL].N_DIM;
  static unsigned short const FAS = C_ENT[EL].N_FACES;
  static unsigned short const MDF = CE_N_ELEMENT_MODES( C_ENT[EL].TYPE_FACES, OSP );
  static unsigned short const MDE = CE_N_ELEMENT_MODES( EL, OSP );
  static unsigned short const QE = CE_N_QTS_E( DIS );
  static unsigned short const QM = CE_N_QTS_M( DIS );
};
template< typename R, unsigned short NRM, t_entityType EL, unsigned short OSP, unsigned short OTI, unsigned short NCR >
struct VfTime: VfBase< R, NRM, EL, OSP, OTI, NCR > {
  typedef VfBase< R, NRM, EL, OSP, OTI, NCR > B;
  template< typename S, typename SA, typename SR >
  void ck( R dt, S const & starE, SA const &, SR const &, R const (*dofsE)[B::MDE][NCR], R const (*dofsA)[B::QM][B::MDE][NCR], R (*)[B::MDE][NCR],
           R (*der)[B::QE][B::MDE][NCR], R (*)[OTI][B::QM][B::MDE][NCR], R (*t)[B::MDE][NCR], R (*)[B::QM][B::MDE][NCR] ) const {
    vf_ck( dt, &starE[0][0], sizeof( starE[0] )*B::DIS, dofsE, NRM ? (const void*) dofsA : nullptr, sizeof(R)*NRM*B::QM*B::MDE*NCR, &der[0][0][0][0], &t[0][0][0], B::QE*B::MDE*NCR );
  }
  void integrate( R dt, R const (*der)[B::QE][B::MDE][NCR], R (*t)[B::MDE][NCR] ) const { vf_integrate( dt, &der[0][0][0][0], &t[0][0][0], B::QE*B::MDE*NCR ); }
  void evalTimePrediction( unsigned short n, R const *pts, R const (*der)[B::QE][B::MDE][NCR], R (*out)[B::QE][B::MDE][NCR] ) const {
    for( unsigned short i = 0; i < n; i++ ) vf_eval( pts[i], &der[0][0][0][0], &out[i][0][0][0], B::QE, B::MDE, NCR );
  }
};
template< typename R, unsigned short NRM, t_entityType EL, unsigned short OSP, unsigned short OTI, unsigned short NCR >
struct VfVol: VfBase< R, NRM, EL, OSP, OTI, NCR > {
  typedef VfBase< R, NRM, EL, OSP, OTI, NCR > B;
  template< typename S, typename SA, typename SR >
  void apply( S const & starE, SA const &, SR const &, R const (*t)[B::MDE][NCR], R const (*)[B::QM][B::MDE][NCR], R (*dofsE)[B::MDE][NCR], R (*dofsA)[B::QM][B::MDE][NCR], R (*)[B::MDE][NCR] ) const {
    vf_vol( &starE[0][0], sizeof( starE[0] )*B::DIS, &t[0][0][0], dofsE, NRM ? (const void*) dofsA : nullptr, sizeof(R)*NRM*B::QM*B::MDE*NCR, B::QE*B::MDE*NCR );
  }
};
template< typename R, unsigned short NRM, t_entityType EL, unsigned short OSP, unsigned short OTI, unsigned short NCR >
struct VfSurf: VfBase< R, NRM, EL, OSP, OTI, NCR > {
  typedef VfBase< R, NRM, EL, OSP, OTI, NCR > B;
  template< typename F, typename FA >
  void local( F const & fsE, FA const &, R const (*t)[B::MDE][NCR], R (*dofsE)[B::MDE][NCR], R (*dofsA)[B::QM][B::MDE][NCR], R (*)[B::QE][B::MDF][NCR],
              R const (*)[B::MDE][NCR] = nullptr, R const (*)[B::MDE][NCR] = nullptr ) const {
    vf_loc( &fsE[0][0], sizeof( fsE[0] )*B::FAS, &t[0][0][0], dofsE, NRM ? (const void*) dofsA : nullptr, sizeof(R)*NRM*B::QM*B::MDE*NCR, B::QE*B::MDE*NCR );
  }
  void neighFluxInt( unsigned short fa, unsigned short vId, unsigned short fId, R const (*t)[B::MDE][NCR], R (*out)[B::MDF][NCR], R const (*)[B::MDE][NCR] = nullptr ) const {
    vf_flux( fa, vId, fId, &t[0][0][0], B::QE*B::MDE*NCR, &out[0][0][0], B::QE*B::MDF*NCR );
  }
  template< typename F, typename FA >
  void neigh( unsigned short fa, unsigned short vId, unsigned short fId, F const & fsE, FA const &, R const (*t)[B::MDE][NCR], R const (*recv)[B::MDF][NCR],
              R (*dofsE)[B::MDE][NCR], R (*)[B::MDE][NCR], R (*)[B::QE][B::MDF][NCR], R const (*)[B::MDE][NCR] = nullptr ) const {
    vf_nei( fa, vId, fId, &fsE[0], sizeof( fsE ), B::FAS, &t[0][0][0], B::QE*B::MDE*NCR, recv ? &recv[0][0][0] : nullptr, B::QE*B::MDF*NCR, dofsE );
  }
  void scatterUpdateA( R const (*)[B::MDE][NCR], R (*)[B::QM][B::MDE][NCR] ) const {}
};
template< typename R, unsigned short NRM, t_entityType EL, unsigned short OSP, unsigned short OTI, unsigned short NCR >
class Kernels {
  public:
    VfTime< R, NRM, EL, OSP, OTI, NCR > m_time;
    VfVol<  R, NRM, EL, OSP, OTI, NCR > m_volInt;
    VfSurf< R, NRM, EL, OSP, OTI, NCR > m_surfInt;
    Kernels( R const *, data::Dynamic & ) {}
};
} } }

namespace edge { namespace seismic { namespace setups {
template< typename R, typename LID, t_entityType EL, unsigned short OSP, unsigned short NCR >
class PointSources {
  static unsigned short const QTS = (C_ENT[EL].N_DIM == 2) ? 5 : 9;
  static unsigned short const MDS = CE_N_ELEMENT_MODES( EL, OSP );
  bool m_on = false;
  public:
    template< typename SP, typename VC, typename EC >
    bool init( std::string const *, SP sp, LID nEls, LID const (*)[C_ENT[EL].N_VERTICES], VC const *, R const *, EC *elChars, edge::data::Dynamic & ) {
      for( LID e = 0; e < nEls; e++ ) if( vf_is_source( e ) ) elChars[e].spType |= sp;
      m_on = true;
      return true;
    }
    void apply( LID first, LID size, R t1, R t2, R (*dofs)[QTS][MDS][NCR] ) const { if( m_on ) vf_src( first, size, t1, t2, dofs ); }
};
} } }

namespace edge { namespace setups {
template< t_entityType EL, unsigned short OSP, unsigned short NQT, unsigned short NCR >
struct InitialDofs {
  static unsigned short const MDS = CE_N_ELEMENT_MODES( EL, OSP );
  template< typename LID, typename B, typename VC, typename R >
  static void dg( LID, LID, std::string const *, B const &, LID (*)[C_ENT[EL].N_VERTICES], VC const *, R (*dofs)[NQT][MDS][NCR] ) { vf_set_dofs_base( dofs, sizeof( dofs[0] ) ); }
  template< typename... A > static void err( A... ) {}
};
} }
#endif
