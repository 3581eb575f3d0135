// SOURCES: EllipticFACOps EllipticFACSolver FACPreconditioner CellPoissonHypreSolver PoissonSpecifications PhaseFACOps TemperatureFACOps ConcFACOps EtaFACOps PhaseTemperatureFACOps PhaseFACSolver TemperatureFACSolver ConcFACSolver EtaFACSolver CartesianRobinBcHelperWithDepth toolsSAMRAI
#include "drv.h"
#include "ConcFACOps.h"
#include "ConcFACSolver.h"
#include "EllipticFACOps.h"
#include "EllipticFACSolver.h"
#include "EtaFACOps.h"
#include "EtaFACSolver.h"
#include "PhaseFACOps.h"
#include "PhaseFACSolver.h"
#include "PhaseTemperatureFACOps.h"
#include "TemperatureFACOps.h"
#include "TemperatureFACSolver.h"

struct Fac {
   std::shared_ptr<EllipticFACOps> ops;
   std::shared_ptr<solv::LocationIndexRobinBcCoefs> bc;
   std::shared_ptr<EllipticFACSolver> solver;
   int depth = 1, kind = 0;
};
typedef solv::SAMRAIVectorReal<double> V;
static std::shared_ptr<V> vec(int id)
{
   std::shared_ptr<V> v(new V("v", vd::hierarchy, 0, vd::hierarchy->getFinestLevelNumber()));
   v->addComponent(vd::vars.at(id), id, -1);
   return v;
}
static Thermo4PFM::EnergyInterpolationType ei(int c)
{
   using Thermo4PFM::EnergyInterpolationType;
   return c == 'l' ? EnergyInterpolationType::LINEAR
                   : c == 'p' ? EnergyInterpolationType::PBG : EnergyInterpolationType::HARMONIC;
}

extern "C" {
// kind: 'e' elliptic, 'p' phase, 't' temperature, 'c' composition, 'n' eta, 'x' phase-temperature
int fd_new(int kind, int depth, const char* text, int solver, const double* bc)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<Fac> f(new Fac);
      std::shared_ptr<tbox::Database> d = vd::db(text);
      f->kind = kind;
      f->depth = depth;
      f->bc.reset(new solv::LocationIndexRobinBcCoefs(tbox::Dimension(NDIM), "bc"));
      for (int i = 0; i < 2 * NDIM; i++)
         f->bc->setRawCoefficients(i, bc[3 * i], bc[3 * i + 1], bc[3 * i + 2]);
      std::shared_ptr<PhaseFACOps> po;
      std::shared_ptr<TemperatureFACOps> to;
      std::shared_ptr<ConcFACOps> co;
      std::shared_ptr<EtaFACOps> eo;
      if (kind == 'p') f->ops = po = std::make_shared<PhaseFACOps>("ops", d);
      if (kind == 't') f->ops = to = std::make_shared<TemperatureFACOps>("ops", d);
      if (kind == 'c') f->ops = co = std::make_shared<ConcFACOps>("ops", depth, d);
      if (kind == 'n') f->ops = eo = std::make_shared<EtaFACOps>("ops", d);
      if (kind == 'x') f->ops = std::make_shared<PhaseTemperatureFACOps>("ops", d);
      if (kind == 'e') f->ops.reset(new EllipticFACOps(tbox::Dimension(NDIM), "ops", d, depth));
      if (solver) {
         if (po)
            f->solver.reset(new PhaseFACSolver("solver", po, d));
         else if (to)
            f->solver.reset(new TemperatureFACSolver("solver", to, d));
         else if (co)
            f->solver.reset(new ConcFACSolver("solver", co, d));
         else if (eo)
            f->solver.reset(new EtaFACSolver("solver", eo, d));
         else
            f->solver.reset(new EllipticFACSolver("solver", f->ops, d));
         f->solver->setBcObject(f->bc.get());
      } else
         f->ops->setPhysicalBcCoefObject(f->bc.get());
      h = vd::keep(f);
   });
   return h;
}
int fd_init(int h, int u, int f)
{
   return vd::guard([&] {
      Fac* s = vd::obj<Fac>(h);
      if (s->solver)
         s->solver->initializeSolverState(u, f, vd::hierarchy, 0, vd::hierarchy->getFinestLevelNumber());
      else
         s->ops->initializeOperatorState(*vec(u), *vec(f));
   });
}
int fd_coef(int h, int d, int did, double dv, int cid, double cv)
{
   return vd::guard([&] {
      Fac* s = vd::obj<Fac>(h);
      if (did >= 0)
         s->ops->setDPatchDataId(did, d);
      else
         s->ops->setDConstant(dv, d);
      if (cid >= 0)
         s->ops->setCPatchDataId(cid, d);
      else
         s->ops->setCConstant(cv, d);
   });
}
int fd_m(int h, int id, double v)
{
   return vd::guard([&] {
      Fac* s = vd::obj<Fac>(h);
      if (id >= 0)
         s->ops->setM(id);
      else
         s->ops->setMConstant(v);
   });
}
int fd_final(int h)
{
   return vd::guard([&] {
      Fac* s = vd::obj<Fac>(h);
      if (s->solver)
         s->solver->finalizeCoefficients();
      else
         s->ops->finalizeCoefficients();
   });
}
int fd_phase(int h, int phi, int m, double eps, double gamma, double scale, const char* well)
{
   return vd::guard([&] {
      Fac* s = vd::obj<Fac>(h);
      if (s->kind == 'p' && s->solver)
         std::dynamic_pointer_cast<PhaseFACSolver>(s->solver)
             ->setOperatorCoefficients(phi, m, eps, gamma, scale, well);
      else if (s->kind == 'p')
         std::dynamic_pointer_cast<PhaseFACOps>(s->ops)->setOperatorCoefficients(phi, m, eps, gamma, scale, well);
      else
         std::dynamic_pointer_cast<PhaseTemperatureFACOps>(s->ops)
             ->setOperatorCoefficients(phi, m, eps, gamma, scale, well);
   });
}
int fd_eta(int h, int phi, int eta, int m, double eps, double gamma, int interp, double scale, const char* well)
{
   return vd::guard([&] {
      Fac* s = vd::obj<Fac>(h);
      if (s->solver)
         std::dynamic_pointer_cast<EtaFACSolver>(s->solver)
             ->setOperatorCoefficients(phi, eta, m, eps, gamma, ei(interp), scale, well);
      else
         std::dynamic_pointer_cast<EtaFACOps>(s->ops)
             ->setOperatorCoefficients(phi, eta, m, eps, gamma, ei(interp), scale, well);
   });
}
int fd_temp(int h, double m, double c, double d)
{
   return vd::guard([&] {
      Fac* s = vd::obj<Fac>(h);
      if (s->solver)
         std::dynamic_pointer_cast<TemperatureFACSolver>(s->solver)->setOperatorCoefficients(m, c, d);
      else
         std::dynamic_pointer_cast<TemperatureFACOps>(s->ops)->setOperatorCoefficients(m, c, d);
   });
}
int fd_conc(int h, double gamma, const int* ids, int n, double mobility)
{
   return vd::guard([&] {
      Fac* s = vd::obj<Fac>(h);
      std::vector<int> d(ids, ids + n);
      if (s->solver)
         std::dynamic_pointer_cast<ConcFACSolver>(s->solver)->setOperatorCoefficients(gamma, d, mobility);
      else
         std::dynamic_pointer_cast<ConcFACOps>(s->ops)->setOperatorCoefficients(gamma, d, mobility);
   });
}
int fd_block(int h, int phi, int out)
{
   return vd::guard([&] {
      std::dynamic_pointer_cast<PhaseTemperatureFACOps>(vd::obj<Fac>(h)->ops)->multiplyDTDPhiBlock(phi, out);
   });
}
int fd_rhs(int h, int u, int out)
{
   return vd::guard([&] { vd::obj<Fac>(h)->ops->evaluateRHS(u, out); });
}
int fd_residual(int h, int res, int u, int f, int hom)
{
   return vd::guard([&] {
      Fac* s = vd::obj<Fac>(h);
      std::shared_ptr<V> r = vec(res), x = vec(u), b = vec(f);
      for (int l = vd::hierarchy->getFinestLevelNumber(); l >= 0; l--)
         s->ops->computeCompositeResidualOnLevel(*r, *x, *b, l, hom);
   });
}
int fd_smooth(int h, int e, int res, int l, int n)
{
   return vd::guard([&] { vd::obj<Fac>(h)->ops->smoothError(*vec(e), *vec(res), l, n); });
}
int fd_coarsest(int h, int e, int res, double tol, int n)
{
   return vd::guard([&] {
      Fac* s = vd::obj<Fac>(h);
      s->ops->setCoarsestLevelSolverTolerance(tol);
      s->ops->setCoarsestLevelSolverMaxIterations(n);
      s->ops->solveCoarsestLevel(*vec(e), *vec(res), 0);
   });
}
int fd_restrict(int h, int what, int s, int d, int l)
{
   return vd::guard([&] {
      Fac* f = vd::obj<Fac>(h);
      if (what == 's') f->ops->restrictSolution(*vec(s), *vec(d), l);
      if (what == 'r') f->ops->restrictResidual(*vec(s), *vec(d), l);
      if (what == 'p') f->ops->prolongErrorAndCorrect(*vec(s), *vec(d), l);
   });
}
int fd_weights(int h, int id)
{
   return vd::guard([&] { vd::obj<Fac>(h)->ops->computeVectorWeights(vd::hierarchy, id); });
}
double fd_norm(int h, int id, int w)
{
   double r = -1;
   vd::guard([&] {
      V v("v", vd::hierarchy, 0, vd::hierarchy->getFinestLevelNumber());
      v.addComponent(vd::vars.at(id), id, w);
      r = vd::obj<Fac>(h)->ops->computeResidualNorm(v, vd::hierarchy->getFinestLevelNumber(), 0);
   });
   return r;
}
// returns whether the solver says it converged; *it, *res its report
int fd_solve(int h, int u, int f, int* conv, double* out)
{
   return vd::guard([&] {
      Fac* s = vd::obj<Fac>(h);
      *conv = s->solver->solveSystem(u, f);
      out[0] = s->solver->getNumberOfIterations();
      out[1] = s->solver->getResidualNorm();
   });
}
}
