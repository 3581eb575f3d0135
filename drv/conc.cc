// SOURCES: CompositionRHSStrategy KKSCompositionRHSStrategy EBSCompositionRHSStrategy BeckermannCompositionRHSStrategy WangSinteringCompositionRHSStrategy CahnHilliardDoubleWell MobilityCompositionDiffusionStrategy TbasedCompositionDiffusionStrategy ScalarCompositionDiffusionStrategy WangSinteringCompositionDiffusionStrategy CompositionStrategyMobilities CALPHADMobility CALPHADFreeEnergyStrategyBinary CALPHADFreeEnergyStrategyTernary RigidBodyMotionConcRHS RigidBodyMotionRHS toolsSAMRAI FreeEnergyStrategy ConcFreeEnergyStrategy Database2JSON
#include "drv.h"
#include "BeckermannCompositionRHSStrategy.h"
#include "CALPHADFreeEnergyStrategyBinary.h"
#include "CALPHADFreeEnergyStrategyTernary.h"
#include "CahnHilliardDoubleWell.h"
#include "CompositionStrategyMobilities.h"
#include "ConstantMolarVolumeStrategy.h"
#include "EBSCompositionRHSStrategy.h"
#include "KKSCompositionRHSStrategy.h"
#include "MobilityCompositionDiffusionStrategy.h"
#include "QuatModel.h"
#include "RigidBodyMotionConcRHS.h"
#include "RigidBodyMotionRHS.h"
#include "ScalarCompositionDiffusionStrategy.h"
#include "TbasedCompositionDiffusionStrategy.h"
#include "WangSinteringCompositionDiffusionStrategy.h"
#include "WangSinteringCompositionRHSStrategy.h"
using namespace Thermo4PFM;

// the only thing the strategy asks of the model; ghosts are filled by the test
static int ghost_fills = 0;
void QuatModel::fillPartitionCoeffGhosts() { ghost_fills++; }

static EnergyInterpolationType ei(int c)
{
   return c == 'l' ? EnergyInterpolationType::LINEAR
                   : c == 'p' ? EnergyInterpolationType::PBG : EnergyInterpolationType::HARMONIC;
}
static ConcInterpolationType ci(int c)
{
   return c == 'l' ? ConcInterpolationType::LINEAR
                   : c == 'p' ? ConcInterpolationType::PBG : ConcInterpolationType::HARMONIC;
}
static DiffusionInterpolationType di(int c)
{
   return c == 'l' ? DiffusionInterpolationType::LINEAR
                   : c == 'p' ? DiffusionInterpolationType::PBG : DiffusionInterpolationType::BIASED;
}
struct Diff {
   std::shared_ptr<CompositionDiffusionStrategy> s;
   std::shared_ptr<FreeEnergyStrategy> fe;
   std::shared_ptr<MolarVolumeStrategy> mv;
   std::shared_ptr<CompositionStrategyMobilities> mob;
};
struct Rhs {
   std::shared_ptr<CompositionRHSStrategy> s;
};

extern "C" {
void cd_file(const char* name, const char* text) { tbox::InputManager::getManager()->d_files[name] = text; }
int cd_tbased(int norderp, int na, int nb, int three, int l, int a, int b, const double* p, int interp,
              const char* avg)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<Diff> d(new Diff);
      d->s.reset(new TbasedCompositionDiffusionStrategy(
          norderp, na, nb, three, l, a, b, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11],
          p[12], p[13], p[14], p[15], di(interp), avg));
      // required by the constructor of the flux strategy, never called
      d->mv.reset(new ConstantMolarVolumeStrategy(1e-5, 1e-5, 1e-5));
      boost::property_tree::ptree pt;
      d->fe.reset(new CALPHADFreeEnergyStrategyBinary<CALPHADFreeEnergyFunctionsBinary>(
          pt, std::shared_ptr<tbox::Database>(), EnergyInterpolationType::LINEAR, ConcInterpolationType::LINEAR,
          d->mv.get(), -1, -1, -1, false));
      h = vd::keep(d);
   });
   return h;
}
int cd_scalar(int norderp, int na, int nb, int three, int id, const double* p, int interp, const char* avg)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<Diff> d(new Diff);
      d->s.reset(new ScalarCompositionDiffusionStrategy(norderp, na, nb, three, id, p[0], p[1], p[2], p[3], p[4],
                                                        p[5], p[6], p[7], di(interp), avg));
      h = vd::keep(d);
   });
   return h;
}
int cd_wang(int conc, int id, const double* p, int interp, const char* avg)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<Diff> d(new Diff);
      d->s.reset(new WangSinteringCompositionDiffusionStrategy(conc, id, p[0], p[1], p[2], p[3], di(interp), avg));
      h = vd::keep(d);
   });
   return h;
}
int cd_mobility(int nc, int third, const char* text, const double* vm, int cl, int ca, int pl, int pa, int dl,
                int da, int interp, const char* avg)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<Diff> d(new Diff);
      d->mv.reset(new ConstantMolarVolumeStrategy(vm[0], vm[1], vm[2]));
      boost::property_tree::ptree pt;
      std::shared_ptr<tbox::Database> newton;
      if (nc == 1)
         d->fe.reset(new CALPHADFreeEnergyStrategyBinary<CALPHADFreeEnergyFunctionsBinary>(
             pt, newton, EnergyInterpolationType::LINEAR, ConcInterpolationType::LINEAR, d->mv.get(), cl, ca, -1,
             false));
      else
         d->fe.reset(new CALPHADFreeEnergyStrategyTernary(vd::db(""), newton, EnergyInterpolationType::LINEAR,
                                                          ConcInterpolationType::LINEAR, d->mv.get(), cl, ca));
      d->mob.reset(new CompositionStrategyMobilities(vd::db(text), third, nc, d->fe));
      if (pl >= 0)
         d->s.reset(new MobilityCompositionDiffusionStrategy(nc, cl, ca, pl, pa, dl, da, avg, di(interp),
                                                             d->mob.get(), d->fe));
      h = vd::keep(d);
   });
   return h;
}
int cd_mob(int h, int phase, int nc, const double* c, double T, double* out, int binary)
{
   return vd::guard([&] {
      CompositionStrategyMobilities* m = vd::obj<Diff>(h)->mob.get();
      std::vector<double> cc(c, c + nc), mm(nc * nc, -7.);
      if (binary)
         mm[0] = phase == 0 ? m->computeDiffusionMobilityBinaryPhaseL(c[0], T)
                            : phase == 1 ? m->computeDiffusionMobilityBinaryPhaseA(c[0], T)
                                         : m->computeDiffusionMobilityBinaryPhaseB(c[0], T);
      else if (phase == 0)
         m->computeDiffusionMobilityPhaseL(cc, T, mm);
      else if (phase == 1)
         m->computeDiffusionMobilityPhaseA(cc, T, mm);
      else
         m->computeDiffusionMobilityPhaseB(cc, T, mm);
      std::copy(mm.begin(), mm.end(), out);
   });
}
int cd_set(int h, int T, int phase)
{
   return vd::guard([&] { vd::obj<Diff>(h)->s->setDiffusion(vd::hierarchy, T, phase); });
}
// ids: conc phase pfmdiff coupling T cl ca cb dl da db k
int cr_kks(const int* i, const double* p, int interp, const char* avg)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<Rhs> r(new Rhs);
      r->s.reset(new KKSCompositionRHSStrategy(i[0], i[1], i[2], i[3], i[4], i[5], i[6], p[0], p[1], p[2], p[3],
                                               ei(interp), avg));
      h = vd::keep(r);
   });
   return h;
}
int cr_ebs(const int* i, int nc, int d, int npre, const int* pre, const char* avg, const char* type)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<Rhs> r(new Rhs);
      r->s.reset(new EBSCompositionRHSStrategy(i[1], nc, i[5], i[6], i[7], i[4], i[8], i[9], i[10],
                                               std::vector<int>(pre, pre + npre), avg, vd::obj<Diff>(d)->fe,
                                               vd::obj<Diff>(d)->s, type));
      h = vd::keep(r);
   });
   return h;
}
int cr_beckermann(const int* i, const double* p, int interp, const char* avg)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<Rhs> r(new Rhs);
      r->s.reset(new BeckermannCompositionRHSStrategy(nullptr, i[0], i[1], i[11], i[2], i[3], p[0], p[1],
                                                      ci(interp), avg));
      h = vd::keep(r);
   });
   return h;
}
int cr_wang(const int* i, int d, const double* p, const char* avg)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<Rhs> r(new Rhs);
      r->s.reset(new WangSinteringCompositionRHSStrategy(i[0], i[1], i[4], i[2], p[0], p[1], p[2], p[3], avg,
                                                         vd::obj<Diff>(d)->s));
      h = vd::keep(r);
   });
   return h;
}
int cr_ch(const int* i, const double* p, const char* avg)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<Rhs> r(new Rhs);
      r->s.reset(new CahnHilliardDoubleWell(i[0], p[0], p[1], p[2], p[3], p[4], avg));
      h = vd::keep(r);
   });
   return h;
}
int cr_setdiff(int h, double time)
{
   return vd::guard([&] {
      CompositionRHSStrategy* s = vd::obj<Rhs>(h)->s.get();
      if (auto k = dynamic_cast<KKSCompositionRHSStrategy*>(s))
         k->setDiffusionCoeff(vd::hierarchy, time);
      else if (auto k = dynamic_cast<EBSCompositionRHSStrategy*>(s))
         k->setDiffusionCoeffForPreconditioner(vd::hierarchy);
      else if (auto k = dynamic_cast<BeckermannCompositionRHSStrategy*>(s))
         k->setDiffusionCoeff(vd::hierarchy, time);
      else if (auto k = dynamic_cast<WangSinteringCompositionRHSStrategy*>(s))
         k->setDiffusionCoeff(vd::hierarchy, time);
      else if (auto k = dynamic_cast<CahnHilliardDoubleWell*>(s))
         k->setDiffusionCoeff(vd::hierarchy, time);
   });
}
int cr_flux(int h, int flux)
{
   return vd::guard([&] {
      vd::patches([&](hier::Patch& p) { vd::obj<Rhs>(h)->s->computeFluxOnPatch(p, flux); });
   });
}
int cr_anti(int h, int phase, int dphidt, double alpha, int flux)
{
   return vd::guard([&] {
      vd::patches(
          [&](hier::Patch& p) { vd::obj<Rhs>(h)->s->addFluxFromAntitrappingonPatch(p, phase, dphidt, alpha, flux); });
   });
}
int cr_zero(int h, int flux)
{
   return vd::guard([&] {
      vd::patches([&](hier::Patch& p) { vd::obj<Rhs>(h)->s->setZeroFluxAtBoundaryOnPatch(p, flux); });
   });
}
int rb_motion(int kind, int data, int weight, double mobility, int ydot, int n, const double* f)
{
   return vd::guard([&] {
      std::vector<std::array<double, NDIM>> forces(n);
      for (int i = 0; i < n; i++)
         for (int j = 0; j < NDIM; j++)
            forces[i][j] = f[i * NDIM + j];
      if (kind == 0)
         RigidBodyMotionRHS(data, weight, mobility).addRHS(vd::hierarchy, ydot, forces);
      else
         RigidBodyMotionConcRHS(data, weight, mobility).addRHS(vd::hierarchy, ydot, forces);
   });
}
}
