// Test double for the Thermo4PFM library (not available offline).
//
// It stands for "a thermodynamic library that answers correctly": each phase
// has a smooth, strictly convex free energy per component, and the KKS phase
// concentrations are solved to machine precision.  All parameters are set by
// the test driver, so that the oracle knows the exact functions AMPE's code is
// supposed to call.  Nothing here is under test.
#ifndef t4p_h
#define t4p_h
#include <cassert>
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <stdexcept>
#include <string>
#include <vector>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/json_parser.hpp>

#define GASCONSTANT_R_JPKPMOL 8.314472

namespace Thermo4PFM
{
enum class EnergyInterpolationType { LINEAR, PBG, HARMONIC, UNDEFINED };
enum class ConcInterpolationType { LINEAR, PBG, HARMONIC, UNDEFINED };
enum class PhaseIndex { phaseL = 0, phaseA = 1, phaseB = 2 };

inline char energyInterpChar(const EnergyInterpolationType t)
{
   switch (t) {
      case EnergyInterpolationType::LINEAR: return 'l';
      case EnergyInterpolationType::PBG: return 'p';
      case EnergyInterpolationType::HARMONIC: return 'h';
      default: return '-';
   }
}
inline char concInterpChar(const ConcInterpolationType t)
{
   switch (t) {
      case ConcInterpolationType::LINEAR: return 'l';
      case ConcInterpolationType::PBG: return 'p';
      case ConcInterpolationType::HARMONIC: return 'h';
      default: return '-';
   }
}
template <class T>
inline double interp_char(const char c, const T phi0)
{
   const double phi = std::max(0., std::min(1., (double)phi0));
   switch (c) {
      case 'l':
      case 'h': return phi;
      case 'p': return phi * phi * phi * (10. - 15. * phi + 6. * phi * phi);
      default: throw std::runtime_error("t4p: undefined interpolation");
   }
}
inline double interp_func(const EnergyInterpolationType t, const double phi)
{
   return interp_char(energyInterpChar(t), phi);
}
inline double interp_func(const ConcInterpolationType t, const double phi)
{
   return interp_char(concInterpChar(t), phi);
}
inline double xlogx(const double x) { return x > 0. ? x * std::log(x) : 0.; }
inline bool checkSublattice(const boost::property_tree::ptree& db)
{
   return db.get<bool>("t4p_sublattice", false);
}

// f_p(c,T) = sum_k [ a (c_k-e)^2 + b (c_k-e)^4 + r T c_k^2 ] + x c_0 c_1 + s T + g
struct Params {
   double a[3][2], e[3][2], b[3][2], r[3][2], x[3], s[3], g[3];
   double ceq[8];  // what computeCeqT reports
   int ceq_ok;
   int calls_phase_conc;
   int fail_phase_conc;  // make the next call fail when > 0
};
inline Params& params()
{
   static Params p{};
   return p;
}

inline double f(const int p, const int nc, const double T, const double* c)
{
   const Params& q = params();
   double v = q.s[p] * T + q.g[p];
   for (int k = 0; k < nc; k++) {
      const double d = c[k] - q.e[p][k];
      v += q.a[p][k] * d * d + q.b[p][k] * d * d * d * d +
           q.r[p][k] * T * c[k] * c[k];
   }
   if (nc == 2) v += q.x[p] * c[0] * c[1];
   return v;
}
inline void df(const int p, const int nc, const double T, const double* c,
               double* o)
{
   const Params& q = params();
   for (int k = 0; k < nc; k++) {
      const double d = c[k] - q.e[p][k];
      o[k] = 2. * q.a[p][k] * d + 4. * q.b[p][k] * d * d * d +
             2. * q.r[p][k] * T * c[k];
      if (nc == 2) o[k] += q.x[p] * c[1 - k];
   }
}
inline void d2f(const int p, const int nc, const double T, const double* c,
                double* o)
{
   const Params& q = params();
   for (int k = 0; k < nc; k++)
      for (int l = 0; l < nc; l++) {
         const double d = c[k] - q.e[p][k];
         o[k * nc + l] = (k == l) ? 2. * q.a[p][k] + 12. * q.b[p][k] * d * d +
                                        2. * q.r[p][k] * T
                                  : q.x[p];
      }
}

// dense Newton for sum_p h_p c_p = c, equal chemical potentials
inline int solveKKS(const int np, const int nc, const double T, const double* c,
                    const double* h, double* x)
{
   Params& q = params();
   q.calls_phase_conc++;
   if (q.fail_phase_conc > 0) {
      if (--q.fail_phase_conc == 0) return -1;
   }
   const int n = np * nc;
   double r0 = 0.;
   for (int it = 0; it < 200; it++) {
      std::vector<double> A(n * n, 0.), r(n, 0.);
      std::vector<double> m0(nc), m(nc), H0(nc * nc), H(nc * nc);
      df(0, nc, T, x, m0.data());
      d2f(0, nc, T, x, H0.data());
      for (int k = 0; k < nc; k++) {
         r[k] = -c[k];
         for (int p = 0; p < np; p++) {
            r[k] += h[p] * x[p * nc + k];
            A[k * n + p * nc + k] = h[p];
         }
      }
      for (int p = 1; p < np; p++) {
         df(p, nc, T, x + p * nc, m.data());
         d2f(p, nc, T, x + p * nc, H.data());
         for (int k = 0; k < nc; k++) {
            const int i = p * nc + k;
            r[i] = m[k] - m0[k];
            for (int l = 0; l < nc; l++) {
               A[i * n + p * nc + l] += H[k * nc + l];
               A[i * n + l] -= H0[k * nc + l];
            }
         }
      }
      // Gaussian elimination with partial pivoting
      std::vector<double> d(r);
      for (int i = 0; i < n; i++) {
         int pv = i;
         for (int j = i + 1; j < n; j++)
            if (std::fabs(A[j * n + i]) > std::fabs(A[pv * n + i])) pv = j;
         if (A[pv * n + i] == 0.) return -2;
         for (int k = 0; k < n; k++) std::swap(A[i * n + k], A[pv * n + k]);
         std::swap(d[i], d[pv]);
         for (int j = i + 1; j < n; j++) {
            const double w = A[j * n + i] / A[i * n + i];
            for (int k = i; k < n; k++) A[j * n + k] -= w * A[i * n + k];
            d[j] -= w * d[i];
         }
      }
      double mx = 0.;
      for (int i = n - 1; i >= 0; i--) {
         for (int k = i + 1; k < n; k++) d[i] -= A[i * n + k] * d[k];
         d[i] /= A[i * n + i];
         mx = std::max(mx, std::fabs(d[i]));
      }
      const double damp = mx > 0.5 ? 0.5 / mx : 1.;
      for (int i = 0; i < n; i++) x[i] -= damp * d[i];
      if (mx < 1.e-14 || (it > 8 && mx < 1.e-12 && mx >= r0)) return it;
      r0 = mx;
   }
   return -3;
}

template <int TAG, int NP, int NC>
class FreeEnergyFunctions
{
 public:
   virtual ~FreeEnergyFunctions() {}
   EnergyInterpolationType d_ei;
   ConcInterpolationType d_ci;

   FreeEnergyFunctions(const boost::property_tree::ptree&,
                       boost::optional<boost::property_tree::ptree&>,
                       const EnergyInterpolationType e,
                       const ConcInterpolationType c)
       : d_ei(e), d_ci(c)
   {
   }
   FreeEnergyFunctions(const boost::property_tree::ptree&,
                       const EnergyInterpolationType e,
                       const ConcInterpolationType c)
       : d_ei(e), d_ci(c)
   {
   }

   double computeFreeEnergy(const double T, const double* const c,
                            const PhaseIndex pi, const bool gp = false)
   {
      double v = f((int)pi, NC, T, c);
      if (gp) {
         double d[2];
         df((int)pi, NC, T, c, d);
         for (int k = 0; k < NC; k++) v -= d[k] * c[k];
      }
      return v;
   }
   void computeDerivFreeEnergy(const double T, const double* const c,
                               const PhaseIndex pi, double* d)
   {
      df((int)pi, NC, T, c, d);
   }
   void computeSecondDerivativeFreeEnergy(const double T, const double* const c,
                                          const PhaseIndex pi, double* d2)
   {
      d2f((int)pi, NC, T, c, d2);
   }
   int computePhaseConcentrations(const double T, const double* const c,
                                  const double* const h, double* x)
   {
      double hh[3];
      if (NP == 2) {
         hh[0] = 1. - h[0];
         hh[1] = h[0];
      } else {
         for (int p = 0; p < NP; p++) hh[p] = h[p];
      }
      return solveKKS(NP, NC, T, c, hh, x);
   }
   bool computeCeqT(const double, double* ceq, const int = 20,
                    const bool = false)
   {
      if (params().ceq_ok)
         for (int i = 0; i < NP * NC; i++) ceq[i] = params().ceq[i];
      return params().ceq_ok != 0;
   }
   bool computeCeqT(const double T, const double, const double, double* ceq,
                    const int = 20, const bool = false)
   {
      return computeCeqT(T, ceq);
   }
   bool computeCeqT(const double T, const double, const double, const double,
                    const double, double* ceq, const int = 20,
                    const bool = false)
   {
      return computeCeqT(T, ceq);
   }
   void energyVsPhiAndC(const double, const double* const, const bool,
                        const double, const int = 50, const int = 50)
   {
   }
   void preRunDiagnostics(const double, const int = 100,
                          const std::string& = std::string())
   {
   }
};

typedef FreeEnergyFunctions<0, 2, 1> CALPHADFreeEnergyFunctionsBinary;
typedef FreeEnergyFunctions<1, 2, 1> CALPHADFreeEnergyFunctionsBinary2Ph1Sl;
typedef FreeEnergyFunctions<2, 3, 1> CALPHADFreeEnergyFunctionsBinary3Ph2Sl;
typedef FreeEnergyFunctions<3, 3, 1> CALPHADFreeEnergyFunctionsBinaryThreePhase;
typedef FreeEnergyFunctions<4, 2, 2> CALPHADFreeEnergyFunctionsTernary;
typedef FreeEnergyFunctions<5, 2, 1> KKSFreeEnergyFunctionDiluteBinary;

// f_p = sum_k A_pk (c_k - ceq_pk - (T-Tref) m_p)^2
template <int NP, int NC>
class QuadraticFunctions
{
 protected:
   double d_A[NP][NC], d_c[NP][NC], d_m[NP], d_T0;

 public:
   virtual ~QuadraticFunctions() {}
   double computeFreeEnergy(const double T, const double* const c,
                            const PhaseIndex pi, const bool = false)
   {
      const int p = (int)pi;
      double v = 0.;
      for (int k = 0; k < NC; k++) {
         const double d = c[k] - d_c[p][k] - (T - d_T0) * d_m[p];
         v += d_A[p][k] * d * d;
      }
      return v;
   }
   void computeDerivFreeEnergy(const double T, const double* const c,
                               const PhaseIndex pi, double* o)
   {
      const int p = (int)pi;
      for (int k = 0; k < NC; k++)
         o[k] = 2. * d_A[p][k] * (c[k] - d_c[p][k] - (T - d_T0) * d_m[p]);
   }
   void computeSecondDerivativeFreeEnergy(const double, const double* const,
                                          const PhaseIndex pi, double* o)
   {
      const int p = (int)pi;
      for (int k = 0; k < NC; k++)
         for (int l = 0; l < NC; l++) o[k * NC + l] = k == l ? 2. * d_A[p][k] : 0.;
   }
   int computePhaseConcentrations(const double T, const double* const c,
                                  const double* const hphi, double* x)
   {
      Params& q = params();
      q.calls_phase_conc++;
      double h[NP];
      if (NP == 2) {
         h[0] = 1. - hphi[0];
         h[1] = hphi[0];
      } else
         for (int p = 0; p < NP; p++) h[p] = hphi[p];
      for (int k = 0; k < NC; k++) {
         // c_p = ce_p + mu/(2 A_p)
         double num = c[k], den = 0.;
         for (int p = 0; p < NP; p++) {
            num -= h[p] * (d_c[p][k] + (T - d_T0) * d_m[p]);
            den += h[p] / (2. * d_A[p][k]);
         }
         const double mu = num / den;
         for (int p = 0; p < NP; p++)
            x[p * NC + k] = d_c[p][k] + (T - d_T0) * d_m[p] + mu / (2. * d_A[p][k]);
      }
      return 0;
   }
};
class QuadraticFreeEnergyFunctionsBinary : public QuadraticFunctions<2, 1>
{
 public:
   QuadraticFreeEnergyFunctionsBinary(const double Tref, const double Al,
                                      const double ceql, const double ml,
                                      const double As, const double ceqs,
                                      const double ms,
                                      const EnergyInterpolationType,
                                      const ConcInterpolationType)
   {
      d_T0 = Tref;
      d_A[0][0] = Al;
      d_A[1][0] = As;
      d_c[0][0] = ceql;
      d_c[1][0] = ceqs;
      d_m[0] = ml;
      d_m[1] = ms;
   }
};
class QuadraticFreeEnergyFunctionsTernaryThreePhase
    : public QuadraticFunctions<3, 2>
{
 public:
   QuadraticFreeEnergyFunctionsTernaryThreePhase(
       const double Al[2], const double cl[2], const double Aa[2],
       const double ca[2], const double Ab[2], const double cb[2],
       const EnergyInterpolationType, const ConcInterpolationType)
   {
      d_T0 = 0.;
      const double* A[3] = {Al, Aa, Ab};
      const double* c[3] = {cl, ca, cb};
      for (int p = 0; p < 3; p++) {
         d_m[p] = 0.;
         for (int k = 0; k < 2; k++) {
            d_A[p][k] = A[p][k];
            d_c[p][k] = c[p][k];
         }
      }
   }
};
}
#endif
