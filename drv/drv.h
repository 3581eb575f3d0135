// Common part of the drivers: builds a patch hierarchy out of the test
// doubles, exposes patch data as raw arrays, turns exceptions into codes.
#ifndef vf_drv_h
#define vf_drv_h
#include "sam_all.h"
#include "t4p.h"
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using namespace SAMRAI;

namespace vd
{
static std::string err;
static std::shared_ptr<geom::CartesianGridGeometry> grid;
static std::shared_ptr<hier::PatchHierarchy> hierarchy;
static std::shared_ptr<hier::VariableContext> current;
static std::vector<std::shared_ptr<hier::Variable> > vars;  // by id
static std::vector<std::shared_ptr<void> > objects;

inline int guard(const std::function<void()>& f)
{
   err.clear();
   try {
      f();
      return 0;
   } catch (const SamAbort& e) {
      err = std::string("abort: ") + e.what();
      return 1;
   } catch (const std::exception& e) {
      err = std::string("exception: ") + e.what();
      return 2;
   } catch (...) {
      err = "unknown exception";
      return 3;
   }
}
inline std::shared_ptr<tbox::Database> db(const char* text)
{
   std::shared_ptr<tbox::InputDatabase> d(new tbox::InputDatabase("db"));
   std::string t(text);
   tbox::InputParser::parse(t, d);
   return d;
}
template <class T>
T* obj(int h)
{
   return static_cast<T*>(objects.at(h).get());
}
template <class T>
int keep(T* p)
{
   objects.push_back(std::shared_ptr<T>(p));
   return (int)objects.size() - 1;
}
template <class T>
int keep(std::shared_ptr<T> p)
{
   objects.push_back(p);
   return (int)objects.size() - 1;
}
inline std::shared_ptr<hier::Patch> patch(int l, int p) { return hierarchy->getPatchLevel(l)->getPatch(p); }
inline void patches(const std::function<void(hier::Patch&)>& f)
{
   for (int l = 0; l < hierarchy->getNumberOfLevels(); l++) {
      std::shared_ptr<hier::PatchLevel> level = hierarchy->getPatchLevel(l);
      for (hier::PatchLevel::Iterator p(level->begin()); p != level->end(); ++p)
         f(**p);
   }
}
inline std::shared_ptr<pdat::CellVariable<double> > cellvar(int id)
{
   return std::dynamic_pointer_cast<pdat::CellVariable<double> >(vars.at(id));
}
}  // namespace vd

extern "C" {
const char* vd_error() { return vd::err.c_str(); }
void vd_reset()
{
   vd::objects.clear();
   vd::hierarchy.reset();
   vd::grid.reset();
   vd::vars.clear();
   vd::current.reset();
   hier::VariableDatabase::getDatabase()->reset();
   tbox::RestartManager::getManager()->clearRestartItems();
   tbox::RestartManager::getManager()->closeRestartFile();
   Thermo4PFM::params() = Thermo4PFM::Params();
   if (!getenv("SAM_VERBOSE")) {
      static std::ofstream null("/dev/null");
      std::cerr.rdbuf(null.rdbuf());
      std::cout.rdbuf(null.rdbuf());
   }
}
void vd_geom(const int* lo, const int* hi, const double* xlo, const double* xup, const int* per)
{
   tbox::Dimension d(NDIM);
   hier::Index l(d, 0), u(d, 0);
   hier::IntVector p(d, 0);
   for (int i = 0; i < NDIM; i++) {
      l[i] = lo[i];
      u[i] = hi[i];
      p[i] = per[i] ? hi[i] - lo[i] + 1 : 0;
   }
   vd::grid.reset(new geom::CartesianGridGeometry(hier::Box(l, u, hier::BlockId(0)), xlo, xup, p));
   vd::hierarchy.reset(new hier::PatchHierarchy("hierarchy", vd::grid));
   vd::hierarchy->setMaxNumberOfLevels(4);
   vd::current = hier::VariableDatabase::getDatabase()->getContext("CURRENT");
}
void vd_level(int l, const int* ratio, int n, const int* boxes)
{
   tbox::Dimension d(NDIM);
   hier::IntVector r(d, 1);
   for (int i = 0; i < NDIM; i++)
      r[i] = ratio[i];
   vd::hierarchy->setRatioToCoarserLevel(r, l);
   hier::BoxContainer b;
   for (int k = 0; k < n; k++) {
      hier::Index lo(d, 0), hi(d, 0);
      for (int i = 0; i < NDIM; i++) {
         lo[i] = boxes[k * 2 * NDIM + i];
         hi[i] = boxes[k * 2 * NDIM + NDIM + i];
      }
      b.pushBack(hier::Box(lo, hi, hier::BlockId(0)));
   }
   vd::hierarchy->makeNewPatchLevel(l, b);
}
// kind: 0 cell, 1 side, 2 node; allocates on every level
int vd_var(const char* name, int kind, int isint, int depth, const int* ghosts)
{
   tbox::Dimension d(NDIM);
   hier::IntVector g(d, 0);
   for (int i = 0; i < NDIM; i++)
      g[i] = ghosts[i];
   std::shared_ptr<hier::Variable> v;
   if (kind == 0 && !isint) v.reset(new pdat::CellVariable<double>(d, name, depth));
   if (kind == 0 && isint) v.reset(new pdat::CellVariable<int>(d, name, depth));
   if (kind == 1 && !isint) v.reset(new pdat::SideVariable<double>(d, name, hier::IntVector(d, 1), depth));
   if (kind == 1 && isint) v.reset(new pdat::SideVariable<int>(d, name, hier::IntVector(d, 1), depth));
   if (!v) return -1;
   int id = hier::VariableDatabase::getDatabase()->registerVariableAndContext(v, vd::current, g);
   if ((int)vd::vars.size() <= id) vd::vars.resize(id + 1);
   vd::vars[id] = v;
   for (int l = 0; l < vd::hierarchy->getNumberOfLevels(); l++)
      vd::hierarchy->getPatchLevel(l)->allocatePatchData(id);
   return id;
}
void* vd_part(int id, int l, int p, int part, int* lo, int* hi, int* depth)
{
   std::shared_ptr<hier::PatchData> d = vd::patch(l, p)->getPatchData(id);
   if (!d) return 0;
   *depth = d->depth();
   return d->rawPart(part, lo, hi);
}
// thermodynamic double: per phase and component a e b r (3x2 each), x s g (3
// each), ceq (8), then ceq_ok and fail_phase_conc
void vd_t4p(const double* v)
{
   Thermo4PFM::Params& p = Thermo4PFM::params();
   double* to[4] = {&p.a[0][0], &p.e[0][0], &p.b[0][0], &p.r[0][0]};
   for (int k = 0; k < 4; k++)
      for (int i = 0; i < 6; i++)
         to[k][i] = *v++;
   double* t3[3] = {p.x, p.s, p.g};
   for (int k = 0; k < 3; k++)
      for (int i = 0; i < 3; i++)
         t3[k][i] = *v++;
   for (int i = 0; i < 8; i++)
      p.ceq[i] = *v++;
   p.ceq_ok = (int)*v++;
   p.fail_phase_conc = (int)*v++;
   p.calls_phase_conc = 0;
}
int vd_t4p_calls() { return Thermo4PFM::params().calls_phase_conc; }
// number of damaged guard words around any array
int vd_guards()
{
   int n = 0;
   for (int l = 0; l < vd::hierarchy->getNumberOfLevels(); l++)
      for (auto& p : vd::hierarchy->getPatchLevel(l)->patches_)
         for (auto& d : p->all())
            if (d.second) n += d.second->guards();
   return n;
}
}
#endif
