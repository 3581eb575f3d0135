// The whole of AMPE: runs an input file on the doubles and exposes the
// hierarchy it made.
// SOURCES: QuatModel QuatIntegrator FieldsInitializer CVODESolver AMPE AdaptMovingFrame AzizPartitionCoefficientStrategy BeckermannCompositionRHSStrategy BiasDoubleWellBeckermannFreeEnergyStrategy BiasDoubleWellFreeEnergyStrategy BiasDoubleWellUTRCFreeEnergyStrategy CALPHADFreeEnergyStrategyBinary CALPHADFreeEnergyStrategyBinaryThreePhase CALPHADFreeEnergyStrategyMultiOrder CALPHADFreeEnergyStrategyTernary CALPHADMobility CALPHADequilibriumPhaseConcentrationsStrategy CALPHADequilibriumPhaseConcentrationsStrategyMultiOrder CALPHADequilibriumPhaseConcentrationsStrategyMultiOrderThreePhases CVODEAbstractFunctions CahnHilliardDoubleWell CartesianRobinBcHelperWithDepth CellPoissonHypreSolver CompositionRHSStrategy CompositionStrategyMobilities ConcFACOps ConcFACSolver ConcFreeEnergyStrategy ConstantHeatCapacityStrategy ConstantMeltingTemperatureStrategy Database2JSON DeltaTemperatureFreeEnergyStrategy DerivDiffusionCoeffForQuat EBSCompositionRHSStrategy EllipticFACOps EllipticFACSolver EnergyEvaluationStrategy EquilibriumPhaseConcentrationsBinaryMultiOrder EquilibriumPhaseConcentrationsBinaryMultiOrderThreePhases EtaFACOps EtaFACSolver EventInterval FACPreconditioner FieldsWriter FreeEnergyStrategy GaussianTemperatureStrategy GradientTemperatureStrategy Grains HierarchyStencilOps KKSCompositionRHSStrategy KKSdiluteBinary KKSdiluteEquilibriumPhaseConcentrationsStrategy KKStools KimMobilityStrategy KimMobilityStrategyFiniteMob KimMobilityStrategyFiniteMobAntiTrap KimMobilityStrategyInfMob KimMobilityStrategyInfMob3Phases LinearMeltingTemperatureStrategy MinIntCoarsen MobilityCompositionDiffusionStrategy MovingFrameRHS MultiOrderPEnergyEvaluationStrategy MultiOrderRHSStrategy NKRHeatCapacityStrategy Noise PFModel PartitionCoeffRefinePatchStrategy PartitionCoefficientStrategy PartitionPhaseConcentrationsStrategy PhaseConcentrationsStrategy PhaseFACOps PhaseFACSolver PhaseFluxStrategyAnisotropy PhaseFluxStrategyIsotropic PhaseFluxStrategySimple PhaseFreeEnergyStrategy PhaseIndependentConcentrationsStrategy PhaseRHSStrategyWithQ PhaseRigidBodyForces PhaseTemperatureFACOps PoissonSpecifications QuadraticEquilibriumPhaseConcentrationsStrategy QuadraticEquilibriumPhaseConcentrationsStrategyMultiOrder QuadraticEquilibriumThreePhasesTernaryStrategyMultiOrder QuadraticFreeEnergyStrategy QuadraticFreeEnergyStrategyMultiOrder QuadraticFreeEnergyStrategyMultiOrderTernaryThreePhase QuatFACOps QuatFaceCoeff QuatGradModulusStrategy QuatLevelSolver QuatLinearRefine QuatMobilityStrategy QuatModelParameters QuatRefinePatchStrategy QuatSysSolver QuatWeightedAverage RigidBodyForces RigidBodyMotionConcRHS RigidBodyMotionRHS ScalarCompositionDiffusionStrategy ScalarTemperatureStrategy SimpleQuatGradStrategy SimpleQuatMobilityStrategy SimpleTemperatureRHSStrategy SinteringUWangRHSStrategy SteadyStateTemperatureCompositionSource SteadyStateTemperatureGaussianSource SteadyStateTemperatureStrategy SundialsAbstractVector Sundials_SAMRAIVector TbasedCompositionDiffusionStrategy TemperatureFACOps TemperatureFACSolver TemperatureFreeEnergyStrategy TemperatureHistory TemperatureRHSStrategy TemperatureStrategyFactory ThreeArgsInterpolationType ThreePhasesRHSStrategy TiltingFolchPlapp2005 TiltingMoelans2011 TimeLocationIndexRobinBcCoefs TwoPhasesEnergyEvaluationStrategy UniformNoise UniformPartitionCoefficientStrategy WangRigidBodyForces WangSinteringCompositionDiffusionStrategy WangSinteringCompositionRHSStrategy computeQDiffs computeWeights3Pairs diagnostics tools toolsSAMRAI
#include "drv.h"
#include "AMPE.h"
#include "Sundials_SAMRAIVector.h"
#include "SAMRAI/tbox/InputManager.h"

static AMPE* ampe = 0;
typedef void (*StateFn)(double t, double h, int n, const int* yid, const int* fid);
static StateFn on_state = 0, on_end = 0;

static void call(StateFn fn, double t, double h, N_Vector y, N_Vector f)
{
   auto vec = [](N_Vector v) { return Sundials_SAMRAIVector::getSAMRAIVector(v); };
   auto a = vec(y), b = vec(f);
   std::vector<int> ia, ib;
   for (auto& c : a->c_)
      ia.push_back(c.id);
   for (auto& c : b->c_)
      ib.push_back(c.id);
   fn(t, h, (int)ia.size(), ia.data(), ib.data());
}
static void hook(void*, double t, double h, N_Vector y, N_Vector f) { call(on_state, t, h, y, f); }
static void endhook(void*, double t, double h, N_Vector y, N_Vector f) { call(on_end, t, h, y, f); }
static void attach()
{
   // the hierarchy belongs to the model
   vd::hierarchy.reset(hier::PatchHierarchy::last(), [](hier::PatchHierarchy*) {});
   auto& s = hier::VariableDatabase::getDatabase()->slots;
   vd::vars.resize(s.size());
   for (size_t i = 0; i < s.size(); i++)
      vd::vars[i] = s[i].var;
}
extern "C" {
void sm_input(const char* name, const char* text)
{
   tbox::InputManager::getManager()->d_files[name] = text;
}
void sm_cuts(int d, int n, const int* c)
{
   auto& v = mesh::GriddingAlgorithm::cuts();
   v.resize(NDIM);
   v[d].assign(c, c + n);
}
void sm_fine(int block, int d, int n, const int* c)
{
   mesh::GriddingAlgorithm::block() = block;
   auto& v = mesh::GriddingAlgorithm::finecuts();
   v.resize(NDIM);
   v[d].assign(c, c + n);
}
void sm_fixed(double h) { sam_cv_fixed = h; }
void sm_hook(StateFn f)
{
   on_state = f;
   sam_cv_hook = f ? hook : 0;
}
void sm_end(StateFn f)
{
   on_end = f;
   sam_cv_end = f ? endhook : 0;
}
int sm_init(const char* input, const char* dir, int num)
{
   return vd::guard([&] {
      ampe = new AMPE(0);
      ampe->initialize(input, dir, num);
      attach();
   });
}
int sm_run()
{
   return vd::guard([&] {
      ampe->run();
      attach();
   });
}
void sm_attach() { attach(); }
static std::ostringstream* captured = 0;
void sm_capture(int on)
{
   if (!captured) captured = new std::ostringstream;
   if (on && !getenv("SAM_VERBOSE")) tbox::pout.rdbuf(captured->rdbuf());
}
const char* sm_output()
{
   static std::string r;
   r = captured ? captured->str() : "";
   return r.c_str();
}
int sm_id(const char* name, const char* ctx)
{
   auto& s = hier::VariableDatabase::getDatabase()->slots;
   for (size_t i = 0; i < s.size(); i++)
      if (s[i].live && s[i].var->getName() == name && (s[i].ctx ? s[i].ctx->getName() : "") == ctx) return (int)i;
   return -1;
}
int sm_nids() { return (int)hier::VariableDatabase::getDatabase()->slots.size(); }
const char* sm_name(int id)
{
   static std::string r;
   auto& s = hier::VariableDatabase::getDatabase()->slots.at(id);
   r = s.var->getName() + "|" + (s.ctx ? s.ctx->getName() : "") + (s.live ? "" : "|dead");
   return r.c_str();
}
int sm_tagged(int* out, int max)
{
   auto& t = mesh::GriddingAlgorithm::tagged();
   int n = 0;
   for (auto& c : t)
      for (int d = 0; d < NDIM && n < max; d++)
         out[n++] = c[d];
   return (int)t.size();
}
int sm_levels() { return vd::hierarchy->getNumberOfLevels(); }
int sm_patches(int l) { return (int)vd::hierarchy->getPatchLevel(l)->patches_.size(); }
void sm_box(int l, int p, int* lo, int* hi)
{
   for (int d = 0; d < NDIM; d++) {
      lo[d] = vd::patch(l, p)->getBox().lower(d);
      hi[d] = vd::patch(l, p)->getBox().upper(d);
   }
}
}
