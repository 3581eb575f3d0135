// SOURCES: FreeEnergyStrategy ConcFreeEnergyStrategy QuadraticFreeEnergyStrategy QuadraticFreeEnergyStrategyMultiOrder QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase CALPHADFreeEnergyStrategyBinary CALPHADFreeEnergyStrategyBinaryThreePhase CALPHADFreeEnergyStrategyMultiOrder CALPHADFreeEnergyStrategyTernary KKSdiluteBinary BiasDoubleWellFreeEnergyStrategy BiasDoubleWellBeckermannFreeEnergyStrategy BiasDoubleWellUTRCFreeEnergyStrategy DeltaTemperatureFreeEnergyStrategy PhaseFreeEnergyStrategy TemperatureFreeEnergyStrategy LinearMeltingTemperatureStrategy ConstantMeltingTemperatureStrategy TiltingFolchPlapp2005 TiltingMoelans2011 Database2JSON
#include "drv.h"
#include "BiasDoubleWellBeckermannFreeEnergyStrategy.h"
#include "BiasDoubleWellUTRCFreeEnergyStrategy.h"
#include "CALPHADFreeEnergyStrategyBinary.h"
#include "CALPHADFreeEnergyStrategyBinaryThreePhase.h"
#include "CALPHADFreeEnergyStrategyMultiOrder.h"
#include "CALPHADFreeEnergyStrategyTernary.h"
#include "ConstantMeltingTemperatureStrategy.h"
#include "ConstantMolarVolumeStrategy.h"
#include "Database2JSON.h"
#include "DeltaTemperatureFreeEnergyStrategy.h"
#include "KKSdiluteBinary.h"
#include "LinearMeltingTemperatureStrategy.h"
#include "PhaseFreeEnergyStrategy.h"
#include "QuadraticFreeEnergyStrategy.h"
#include "QuadraticFreeEnergyStrategyMultiOrder.h"
#include "QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase.h"
#include "TemperatureFreeEnergyStrategy.h"
#include "TiltingFolchPlapp2005.h"
#include "TiltingMoelans2011.h"
using namespace Thermo4PFM;

static EnergyInterpolationType ei(int c)
{
   return c == 'l' ? EnergyInterpolationType::LINEAR
                   : c == 'p' ? EnergyInterpolationType::PBG
                              : EnergyInterpolationType::HARMONIC;
}
struct FE {
   std::shared_ptr<FreeEnergyStrategy> s;
   std::shared_ptr<MolarVolumeStrategy> mv;
};

extern "C" {
int fe_new(int kind, const char* text, int interp, int norderA, double vml, double vma, double vmb, int cl,
           int ca, int cb, int three)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<FE> f(new FE);
      f->mv.reset(new ConstantMolarVolumeStrategy(vml, vma, vmb));
      MolarVolumeStrategy* mv = f->mv.get();
      auto db = vd::db(text);
      boost::property_tree::ptree pt;
      std::shared_ptr<tbox::Database> newton;
      const ConcInterpolationType cit = ConcInterpolationType::LINEAR;
      switch (kind) {
         case 0: f->s.reset(new QuadraticFreeEnergyStrategy(db, ei(interp), vml, vma, cl, ca)); break;
         case 1: f->s.reset(new QuadraticFreeEnergyStrategyMultiOrder(db, ei(interp), vml, vma, cl, ca)); break;
         case 2:
            f->s.reset(new QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase(db, ei(interp), norderA, vml,
                                                                                  vma, vmb, cl, ca, cb));
            break;
         case 3:
            f->s.reset(new CALPHADFreeEnergyStrategyBinary<CALPHADFreeEnergyFunctionsBinary>(
                pt, newton, ei(interp), cit, mv, cl, ca, cb, three));
            break;
         case 4:
            f->s.reset(new CALPHADFreeEnergyStrategyBinary<CALPHADFreeEnergyFunctionsBinary2Ph1Sl>(
                pt, newton, ei(interp), cit, mv, cl, ca, cb, three));
            break;
         case 5:
            f->s.reset(new CALPHADFreeEnergyStrategyMultiOrder<CALPHADFreeEnergyFunctionsBinaryThreePhase>(
                pt, newton, cit, norderA, mv, cl, ca, cb));
            break;
         case 6:
            f->s.reset(new CALPHADFreeEnergyStrategyMultiOrder<CALPHADFreeEnergyFunctionsBinary2Ph1Sl>(
                pt, newton, cit, norderA, mv, cl, ca, cb));
            break;
         case 7:
            f->s.reset(new CALPHADFreeEnergyStrategyBinaryThreePhase<CALPHADFreeEnergyFunctionsBinaryThreePhase,
                                                                     TiltingFolchPlapp2005>(
                pt, newton, ei(interp), cit, mv, cl, ca, cb));
            break;
         case 8:
            f->s.reset(new CALPHADFreeEnergyStrategyBinaryThreePhase<CALPHADFreeEnergyFunctionsBinary3Ph2Sl,
                                                                     TiltingMoelans2011>(
                pt, newton, ei(interp), cit, mv, cl, ca, cb));
            break;
         case 9:
            f->s.reset(new CALPHADFreeEnergyStrategyTernary(db, newton, ei(interp), cit, mv, cl, ca));
            break;
         case 10: f->s.reset(new KKSdiluteBinary(db, ei(interp), cit, mv, cl, ca)); break;
         default: throw std::runtime_error("kind");
      }
      h = vd::keep(f);
   });
   return h;
}
int mt_new(int kind, double Tref, double c0, double slope, int conc_id, int temp_id)
{
   int h = -1;
   vd::guard([&] {
      MeltingTemperatureStrategy* s;
      if (kind == 0)
         s = new ConstantMeltingTemperatureStrategy(Tref, temp_id);
      else
         s = new LinearMeltingTemperatureStrategy(Tref, c0, slope, conc_id, temp_id);
      h = vd::keep(std::shared_ptr<MeltingTemperatureStrategy>(s));
   });
   return h;
}
int mt_eval(int h)
{
   return vd::guard([&] {
      vd::patches([&](hier::Patch& p) { vd::obj<MeltingTemperatureStrategy>(h)->evaluate(p); });
   });
}
int fe_pure(int kind, int interp, const double* p, int mt)
{
   int h = -1;
   vd::guard([&] {
      std::shared_ptr<FE> f(new FE);
      switch (kind) {
         case 0: f->s.reset(new PhaseFreeEnergyStrategy(ei(interp), p[0], p[1], p[2], p[3])); break;
         case 1: f->s.reset(new TemperatureFreeEnergyStrategy(ei(interp), p[0], p[1], p[2], p[3])); break;
         case 2: f->s.reset(new DeltaTemperatureFreeEnergyStrategy(p[0], p[1], ei(interp))); break;
         case 3:
            f->s.reset(new BiasDoubleWellUTRCFreeEnergyStrategy(p[0], p[1], vd::obj<MeltingTemperatureStrategy>(mt)));
            break;
         case 4:
            f->s.reset(
                new BiasDoubleWellBeckermannFreeEnergyStrategy(p[0], vd::obj<MeltingTemperatureStrategy>(mt)));
            break;
         default: throw std::runtime_error("kind");
      }
      h = vd::keep(f);
   });
   return h;
}
// which: 0 liquid, 1 solid A, 2 solid B; mode 0 hierarchy, 1 patch by patch
int fe_energy(int h, int which, int mode, int T, int f, int gp)
{
   return vd::guard([&] {
      FreeEnergyStrategy* s = vd::obj<FE>(h)->s.get();
      auto on = [&](auto& where) {
         if (which == 0)
            s->computeFreeEnergyLiquid(where, T, f, gp);
         else if (which == 1)
            s->computeFreeEnergySolidA(where, T, f, gp);
         else
            s->computeFreeEnergySolidB(where, T, f, gp);
      };
      if (mode == 0)
         on(vd::hierarchy);
      else
         vd::patches([&](hier::Patch& p) { on(p); });
   });
}
int fe_deriv(int h, int which, int T, int f)
{
   return vd::guard([&] {
      FreeEnergyStrategy* b = vd::obj<FE>(h)->s.get();
      if (ConcFreeEnergyStrategy* s = dynamic_cast<ConcFreeEnergyStrategy*>(b)) {
         if (which == 0)
            s->computeDerivFreeEnergyLiquid(vd::hierarchy, T, f);
         else if (which == 1)
            s->computeDerivFreeEnergySolidA(vd::hierarchy, T, f);
         else
            s->computeDerivFreeEnergySolidB(vd::hierarchy, T, f);
      } else if (KKSdiluteBinary* s = dynamic_cast<KKSdiluteBinary*>(b)) {
         if (which == 0)
            s->computeDerivFreeEnergyLiquid(vd::hierarchy, T, f);
         else
            s->computeDerivFreeEnergySolidA(vd::hierarchy, T, f);
      } else
         throw std::runtime_error("no derivative");
   });
}
// mode 0 add, 1 computeDrivingForce on the hierarchy, 2 on every patch
int fe_force(int h, int mode, double time, int T, int phase, int eta, int conc, int fl, int fa, int fb, int rhs)
{
   return vd::guard([&] {
      FreeEnergyStrategy* s = vd::obj<FE>(h)->s.get();
      if (mode == 1)
         s->computeDrivingForce(time, vd::hierarchy, T, phase, eta, conc, fl, fa, fb, rhs);
      else
         vd::patches([&](hier::Patch& p) {
            if (mode == 0)
               s->addDrivingForce(time, p, T, phase, eta, conc, fl, fa, fb, rhs);
            else
               s->computeDrivingForce(time, p, T, phase, eta, conc, fl, fa, fb, rhs);
         });
   });
}
int fe_force_eta(int h, double time, int T, int phase, int eta, int conc, int fl, int fa, int fb, int rhs)
{
   return vd::guard([&] {
      auto* s = dynamic_cast<CALPHADFreeEnergyStrategyBinary<CALPHADFreeEnergyFunctionsBinary>*>(
          vd::obj<FE>(h)->s.get());
      if (!s) throw std::runtime_error("no eta");
      vd::patches([&](hier::Patch& p) {
         s->addDrivingForceEta(time, p, T, phase, eta, conc, fl, fa, fb, rhs);
      });
   });
}
int fe_dphidt(int h, int T, int phase, int rhs, double mobility)
{
   return vd::guard([&] {
      auto* s = dynamic_cast<DeltaTemperatureFreeEnergyStrategy*>(vd::obj<FE>(h)->s.get());
      s->applydPhidTBlock(vd::hierarchy, T, phase, rhs, mobility);
   });
}
int fe_second(int h, int which, double T, const double* c, int nc, double* out, int units)
{
   return vd::guard([&] {
      FreeEnergyStrategy* s = vd::obj<FE>(h)->s.get();
      std::vector<double> cc(c, c + nc), d(nc * nc, -7.);
      if (which == 0)
         s->computeSecondDerivativeEnergyPhaseL(T, cc, d, units);
      else
         s->computeSecondDerivativeEnergyPhaseA(T, cc, d, units);
      for (int i = 0; i < nc * nc; i++)
         out[i] = d[i];
   });
}
}
