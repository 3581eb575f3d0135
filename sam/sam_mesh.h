// Test double of SAMRAI's mesh and appu packages.
#ifndef sam_mesh_h
#define sam_mesh_h
#include "sam_solv.h"

namespace SAMRAI
{
namespace mesh
{
using hier::Box;
using hier::IntVector;
using tbox::Dimension;
class TagAndInitializeStrategy
{
 public:
   virtual ~TagAndInitializeStrategy() {}
};
class StandardTagAndInitStrategy
{
 public:
   virtual ~StandardTagAndInitStrategy() {}
   virtual void initializeLevelData(const std::shared_ptr<hier::PatchHierarchy>& hierarchy, const int level_number,
                                    const double init_data_time, const bool can_be_refined, const bool initial_time,
                                    const std::shared_ptr<hier::PatchLevel>& old_level, const bool allocate_data) = 0;
   virtual void resetHierarchyConfiguration(const std::shared_ptr<hier::PatchHierarchy>& hierarchy,
                                            const int coarsest_level, const int finest_level) = 0;
   virtual void applyGradientDetector(const std::shared_ptr<hier::PatchHierarchy>&, const int, const double, const int,
                                      const bool, const bool)
   {
   }
};
class StandardTagAndInitialize
{
   StandardTagAndInitStrategy* s_;

 public:
   StandardTagAndInitialize(const std::string&, StandardTagAndInitStrategy* s,
                            const std::shared_ptr<tbox::Database>& = std::shared_ptr<tbox::Database>())
       : s_(s)
   {
   }
   StandardTagAndInitStrategy* strategy() const { return s_; }
   void resetHierarchyConfiguration(const std::shared_ptr<hier::PatchHierarchy>& h, int c, int f)
   {
      s_->resetHierarchyConfiguration(h, c, f);
   }
};
class BergerRigoutsos
{
 public:
   explicit BergerRigoutsos(const Dimension&, const std::shared_ptr<tbox::Database>& = std::shared_ptr<tbox::Database>())
   {
   }
};
class TreeLoadBalancer
{
 public:
   TreeLoadBalancer(const Dimension&, const std::string&) {}
   void setSAMRAI_MPI(const tbox::SAMRAI_MPI&) {}
   void printStatistics(std::ostream& = std::cout) const {}
};
// Makes the boxes it is told to: level 0 is the domain cut into the given
// number of pieces; a finer level covers the tagged cells, cut into boxes.
class GriddingAlgorithm
{
   std::shared_ptr<hier::PatchHierarchy> h_;
   std::shared_ptr<StandardTagAndInitialize> t_;

 public:
   // cut positions of level 0 (cells per direction where a new patch starts)
   static std::vector<std::vector<int> >& cuts()
   {
      static std::vector<std::vector<int> > c;
      return c;
   }
   GriddingAlgorithm(const std::shared_ptr<hier::PatchHierarchy>& h, const std::string&,
                     const std::shared_ptr<tbox::Database>&, const std::shared_ptr<StandardTagAndInitialize>& t,
                     const std::shared_ptr<BergerRigoutsos>&, const std::shared_ptr<TreeLoadBalancer>&)
       : h_(h), t_(t)
   {
   }
   std::shared_ptr<StandardTagAndInitialize> getTagAndInitializeStrategy() const { return t_; }
   static hier::BoxContainer split(const Box& dom, const std::vector<std::vector<int> >& cuts)
   {
      hier::BoxContainer r(dom);
      for (size_t d = 0; d < cuts.size() && d < NDIM; d++)
         for (int c : cuts[d]) {
            hier::BoxContainer n;
            for (auto& b : r)
               if (c > b.lower(d) && c <= b.upper(d)) {
                  Box x(b), y(b);
                  x.upper(d) = c - 1;
                  y.lower(d) = c;
                  n.pushBack(x);
                  n.pushBack(y);
               } else
                  n.pushBack(b);
            r = n;
         }
      return r;
   }
   void makeCoarsestLevel(double t)
   {
      h_->makeNewPatchLevel(0, split(h_->getGridGeometry()->domain_, cuts()));
      t_->strategy()->initializeLevelData(h_, 0, t, h_->levelCanBeRefined(0), true,
                                          std::shared_ptr<hier::PatchLevel>(), true);
      t_->strategy()->resetHierarchyConfiguration(h_, 0, 0);
   }
   // where the boxes of level 1 are cut further, in cells of level 1
   static std::vector<std::vector<int> >& finecuts()
   {
      static std::vector<std::vector<int> > c;
      return c;
   }
   // level 1 is made of blocks of this many cells of level 0
   static int& block()
   {
      static int b = 2;
      return b;
   }
   // tags of level 0 as set by the strategy, before any buffer
   static std::vector<std::vector<int> >& tagged()
   {
      static std::vector<std::vector<int> > t;
      return t;
   }
   static int tagid()
   {
      static int id = -1;
      if (id < 0) {
         hier::VariableDatabase* db = hier::VariableDatabase::getDatabase();
         std::shared_ptr<hier::Variable> v(new pdat::CellVariable<int>(Dimension(NDIM), "sam_tags", 1));
         id = db->registerVariableAndContext(v, db->getContext("sam_tags"), IntVector(Dimension(NDIM), 0));
      }
      return id;
   }
   void makeFinerLevel(int tag_buffer, bool initial_time, int, double time)
   {
      const int ln = h_->getFinestLevelNumber();
      if (!h_->levelCanBeRefined(ln)) return;
      hier::BoxContainer b = boxes(ln, tag_buffer, initial_time, time);
      if (b.empty()) return;
      h_->makeNewPatchLevel(ln + 1, b);
      t_->strategy()->initializeLevelData(h_, ln + 1, time, h_->levelCanBeRefined(ln + 1), initial_time,
                                          std::shared_ptr<hier::PatchLevel>(), true);
      t_->strategy()->resetHierarchyConfiguration(h_, ln + 1, ln + 1);
   }
   void regridAllFinerLevels(int ln, const std::vector<int>& tag_buffer, int, double time)
   {
      if (ln) throw SamAbort("regridAllFinerLevels: only from level 0");
      if (!h_->levelCanBeRefined(ln)) return;
      hier::BoxContainer b = boxes(ln, tag_buffer.at(ln), false, time);
      if (b.empty()) {
         if (h_->levelExists(ln + 1)) h_->removePatchLevel(ln + 1);
         return;
      }
      std::shared_ptr<hier::PatchLevel> old;
      if (h_->levelExists(ln + 1)) old = h_->getPatchLevel(ln + 1);
      h_->makeNewPatchLevel(ln + 1, b);
      t_->strategy()->initializeLevelData(h_, ln + 1, time, h_->levelCanBeRefined(ln + 1), false, old, true);
      t_->strategy()->resetHierarchyConfiguration(h_, ln + 1, ln + 1);
   }

 private:
   // boxes of the next finer level: all blocks with a tagged cell within the
   // buffer's distance, runs of blocks along x joined
   hier::BoxContainer boxes(int ln, int buffer, bool initial_time, double time)
   {
      if (ln) throw SamAbort("three levels are not supported");
      const int id = tagid();
      std::shared_ptr<hier::PatchLevel> l = h_->getPatchLevel(ln);
      l->allocatePatchData(id);
      for (auto& p : l->patches_)
         std::dynamic_pointer_cast<pdat::CellData<int> >(p->getPatchData(id))->fillAll(0);
      t_->strategy()->applyGradientDetector(h_, ln, time, id, initial_time, false);
      const Box& dom = h_->getGridGeometry()->domain_;
      int n[3] = {1, 1, 1}, nb[3] = {1, 1, 1};
      for (int d = 0; d < NDIM; d++) {
         n[d] = dom.upper(d) - dom.lower(d) + 1;
         nb[d] = std::max(1, n[d] / block());   // the last block takes the rest
      }
      std::vector<char> on(nb[0] * nb[1] * nb[2], 0);
      tagged().clear();
      for (auto& p : l->patches_) {
         std::shared_ptr<pdat::CellData<int> > t = std::dynamic_pointer_cast<pdat::CellData<int> >(p->getPatchData(id));
         pdat::CellIterator e(pdat::CellGeometry::end(p->getBox()));
         for (pdat::CellIterator i(pdat::CellGeometry::begin(p->getBox())); i != e; ++i) {
            const pdat::CellIndex& c = *i;
            if (!(*t)(c)) continue;
            std::vector<int> v;
            for (int d = 0; d < NDIM; d++)
               v.push_back(c(d) - dom.lower(d));
            tagged().push_back(v);
            int w[3];
            for (w[2] = -buffer; w[2] <= buffer; w[2]++)
               for (w[1] = -buffer; w[1] <= buffer; w[1]++)
                  for (w[0] = -buffer; w[0] <= buffer; w[0]++) {
                     int k[3] = {0, 0, 0};
                     bool in = NDIM == 3 || !w[2];
                     for (int d = 0; d < NDIM && in; d++) {
                        int x = v[d] + w[d];
                        if (h_->getGridGeometry()->periodic_[d]) x = (x + n[d]) % n[d];
                        in = x >= 0 && x < n[d];
                        k[d] = std::min(x / block(), nb[d] - 1);
                     }
                     if (in) on[k[0] + nb[0] * (k[1] + nb[1] * k[2])] = 1;
                  }
         }
      }
      l->deallocatePatchData(id);
      hier::BoxContainer r;
      IntVector ratio = h_->getRatioToCoarserLevel(ln + 1);
      for (int k2 = 0; k2 < nb[2]; k2++)
         for (int k1 = 0; k1 < nb[1]; k1++)
            for (int k0 = 0; k0 < nb[0]; k0++) {
               if (!on[k0 + nb[0] * (k1 + nb[1] * k2)]) continue;
               int a[3] = {k0, k1, k2}, b[3] = {k0, k1, k2};
               while (b[0] + 1 < nb[0] && on[b[0] + 1 + nb[0] * (k1 + nb[1] * k2)])
                  b[0]++;
               k0 = b[0];
               Box x(dom);
               for (int d = 0; d < NDIM; d++) {
                  x.lower(d) = dom.lower(d) + a[d] * block();
                  x.upper(d) = b[d] == nb[d] - 1 ? dom.upper(d) : dom.lower(d) + (b[d] + 1) * block() - 1;
               }
               for (auto& y : split(Box::refine(x, ratio), finecuts()))
                  r.pushBack(y);
            }
      return r;
   }
};
}  // namespace mesh
namespace appu
{
class VisItDataWriter
{
 public:
   VisItDataWriter(const tbox::Dimension&, const std::string&, const std::string&, int = 1, bool = true) {}
   void registerPlotQuantity(const std::string&, const std::string&, int, int = 0, double = 1., const std::string& = "")
   {
   }
   void writePlotData(const std::shared_ptr<hier::PatchHierarchy>&, int cycle, double t = 0.)
   {
      char b[80];
      snprintf(b, sizeof b, "@plot %d %.17g\n", cycle, t);
      tbox::pout << b;
   }
};
}  // namespace appu
}  // namespace SAMRAI
#endif
