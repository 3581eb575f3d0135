// SOURCES: QuatSysSolver QuatFACOps QuatLevelSolver QuatFaceCoeff DerivDiffusionCoeffForQuat FACPreconditioner CartesianRobinBcHelperWithDepth toolsSAMRAI
#include "drv.h"
// the scratch variables of these classes keep the depth of their first user for
// the rest of the process; the driver gives every scene its own
#define private public
#include "QuatFACOps.h"
#include "QuatLevelSolver.h"
#include "QuatSysSolver.h"
#undef private
#include "DerivDiffusionCoeffForQuat.h"
#include "QuatFaceCoeff.h"

struct Qf {
   std::shared_ptr<QuatFaceCoeff> coeff;
   std::shared_ptr<solv::LocationIndexRobinBcCoefs> bc;
   std::shared_ptr<QuatSysSolver> sys;
   std::shared_ptr<QuatLevelSolver> level;
};
typedef solv::SAMRAIVectorReal<double> V;
static std::shared_ptr<V> vec(int id)
{
   std::shared_ptr<V> v(new V("v", vd::hierarchy, 0, vd::hierarchy->getFinestLevelNumber()));
   v->addComponent(vd::vars.at(id), id, -1);
   return v;
}
static void fresh()
{
   QuatFACOps::s_cell_scratch_var.reset();
   QuatFACOps::s_flux_scratch_var.reset();
   QuatFACOps::s_oflux_scratch_var.reset();
   QuatFACOps::s_face_coef_var.reset();
   QuatFACOps::s_face_coef_deriv_var.reset();
   QuatFACOps::s_q_local_var.reset();
   QuatFACOps::s_residual_var.reset();
   QuatFACOps::s_sqrt_m_var.reset();
   QuatFACOps::s_m_deriv_var.reset();
   for (int d = 0; d < NDIM; ++d)
      QuatLevelSolver::s_Ak0_var[d].reset();
}
static std::shared_ptr<solv::LocationIndexRobinBcCoefs> boundary(const double* bc)
{
   std::shared_ptr<solv::LocationIndexRobinBcCoefs> b(
       new solv::LocationIndexRobinBcCoefs(tbox::Dimension(NDIM), "bc"));
   for (int i = 0; i < 2 * NDIM; i++)
      b->setRawCoefficients(i, bc[3 * i], bc[3 * i + 1], bc[3 * i + 2]);
   return b;
}

extern "C" {
int qf_new(int qlen, double eps, double floor, const char* ft, double H, const char* i1, const char* i2,
           const char* avg, const char* text, const double* bc)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<Qf> f(new Qf);
      fresh();
      f->coeff.reset(new QuatFaceCoeff(qlen, eps, floor, ft, H, i1, i2, avg));
      f->bc = boundary(bc);
      f->sys.reset(new QuatSysSolver(qlen, f->coeff, "sys", vd::db(text)));
      f->sys->setBcObject(f->bc.get());
      h = vd::keep(f);
   });
   return h;
}
int qf_init(int h, int u, int f)
{
   return vd::guard([&] { vd::obj<Qf>(h)->sys->initializeSolverState(u, f, vd::hierarchy); });
}
int qf_faces(int h, int phi, int T, int gq, int out)
{
   return vd::guard([&] { vd::obj<Qf>(h)->coeff->computeFaceCoefs(vd::hierarchy, phi, T, gq, out); });
}
int qf_deriv(int qlen, double floor, const char* ft, double H, const char* it, const char* avg, int T, int phi,
             int gq, int out)
{
   return vd::guard([&] {
      DerivDiffusionCoeffForQuat d(vd::grid, H, floor, qlen, it, avg, ft, out);
      d.setup(vd::hierarchy);
      d.setDerivDiffusion(vd::hierarchy, phi, T, gq);
   });
}
int qf_rhs(int h, int phi, int T, int gq, int gqc, int rot, int M, int q, int out, int use)
{
   return vd::guard([&] { vd::obj<Qf>(h)->sys->evaluateRHS(phi, T, gq, gqc, rot, M, q, out, use != 0); });
}
int qf_coef(int h, double gamma, int M, int dM, int phi, int T, int dc, int gq, int q)
{
   return vd::guard([&] { vd::obj<Qf>(h)->sys->setOperatorCoefficients(gamma, M, dM, phi, T, dc, gq, q); });
}
int qf_block(int h, int phi, int out)
{
   return vd::guard([&] { vd::obj<Qf>(h)->sys->multiplyDQuatDPhiBlock(phi, out); });
}
int qf_residual(int h, int res, int u, int f, int hom)
{
   return vd::guard([&] {
      QuatFACOps& o = *vd::obj<Qf>(h)->sys->d_fac_ops;
      std::shared_ptr<V> r = vec(res), x = vec(u), b = vec(f);
      for (int l = vd::hierarchy->getFinestLevelNumber(); l >= 0; l--)
         o.computeCompositeResidualOnLevel(*r, *x, *b, l, hom);
   });
}
int qf_project(int h, int q, int corr, int err)
{
   return vd::guard([&] { vd::obj<Qf>(h)->sys->applyProjection(q, corr, err); });
}
int qf_scale(int h, int id, int divide)
{
   return vd::guard([&] {
      QuatFACOps& o = *vd::obj<Qf>(h)->sys->d_fac_ops;
      if (divide)
         o.divideMobilitySqrt(id);
      else
         o.multiplyMobilitySqrt(id);
   });
}
int qf_restrict(int h, int what, int s, int d, int l)
{
   return vd::guard([&] {
      QuatFACOps& o = *vd::obj<Qf>(h)->sys->d_fac_ops;
      if (what == 's') o.restrictSolution(*vec(s), *vec(d), l);
      if (what == 'r') o.restrictResidual(*vec(s), *vec(d), l);
      if (what == 'p') o.prolongErrorAndCorrect(*vec(s), *vec(d), l);
   });
}
int qf_solve(int h, int u, int f, double tol, int n, int* conv)
{
   return vd::guard([&] {
      Qf* s = vd::obj<Qf>(h);
      s->sys->setResidualTolerance(tol);
      s->sys->d_fac_solver.d_max_iterations = n;
      *conv = s->sys->solveSystem(u, f);
   });
}
int qf_level(int qlen, const char* text, const double* bc, int l, double gamma, int sm, int fc)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<Qf> f(new Qf);
      fresh();
      f->bc = boundary(bc);
      f->level.reset(new QuatLevelSolver(qlen, "level", vd::db(text)));
      f->level->initializeSolverState(vd::hierarchy, l);
      f->level->setPhysicalBcCoefObject(f->bc.get());
      f->level->setMatrixCoefficients(gamma, sm, fc);
      h = vd::keep(f);
   });
   return h;
}
int qf_lsolve(int h, int rhs, int u, double tol, int n, int hom, int* conv)
{
   return vd::guard([&] {
      Qf* s = vd::obj<Qf>(h);
      s->level->setStoppingCriteria(n, tol);
      *conv = s->level->solveSystem(rhs, u, hom != 0);
   });
}
}
