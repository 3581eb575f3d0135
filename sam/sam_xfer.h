// Test double of SAMRAI's xfer package: data transfer between patches.
#ifndef sam_xfer_h
#define sam_xfer_h
#include "sam_pdat.h"

namespace SAMRAI
{
namespace xfer
{
using hier::Box;
using hier::Index;
using hier::IntVector;
using hier::Patch;
using hier::PatchLevel;
using tbox::Dimension;

class RefinePatchStrategy
{
 public:
   RefinePatchStrategy() {}
   virtual ~RefinePatchStrategy() {}
   virtual void setPhysicalBoundaryConditions(Patch& patch, const double fill_time,
                                              const IntVector& ghost_width_to_fill) = 0;
   virtual IntVector getRefineOpStencilWidth(const Dimension& dim) const = 0;
   virtual void preprocessRefine(Patch& fine, const Patch& coarse, const Box& fine_box, const IntVector& ratio) = 0;
   virtual void postprocessRefine(Patch& fine, const Patch& coarse, const Box& fine_box, const IntVector& ratio) = 0;
   virtual void preprocessRefineBoxes(Patch& fine, const Patch& coarse, const hier::BoxContainer& b,
                                      const IntVector& ratio)
   {
      for (auto& x : b)
         preprocessRefine(fine, coarse, x, ratio);
   }
   virtual void postprocessRefineBoxes(Patch& fine, const Patch& coarse, const hier::BoxContainer& b,
                                       const IntVector& ratio)
   {
      for (auto& x : b)
         postprocessRefine(fine, coarse, x, ratio);
   }
};
class CoarsenPatchStrategy
{
};
class PatchLevelFillPattern
{
 public:
   virtual ~PatchLevelFillPattern() {}
};
class PatchLevelFullFillPattern : public PatchLevelFillPattern
{
};
class PatchLevelBorderFillPattern : public PatchLevelFillPattern
{
};
class VariableFillPattern
{
};
struct RefineItem {
   int dst, src, scr;
   std::shared_ptr<hier::RefineOperator> op;
};
inline std::shared_ptr<hier::PatchLevel> sam_level(int num, const hier::BoxContainer& b, const IntVector& r0,
                                                   const IntVector& rc,
                                                   const std::shared_ptr<hier::BaseGridGeometry>& g)
{
   return std::make_shared<PatchLevel>(num, b, r0, rc, g, false);
}

class RefineSchedule
{
 public:
   std::vector<RefineItem> items_;
   std::shared_ptr<PatchLevel> dst_, src_;
   int coarser_;
   std::shared_ptr<hier::PatchHierarchy> h_;
   RefinePatchStrategy* strat_;

   static IntVector ghosts(int id) { return hier::VariableDatabase::getDatabase()->slots[id].g; }
   // Bring the scratch data of `dst` up to date: same-level copies, coarse
   // interpolation where nothing was copied, physical boundaries.
   void fill(PatchLevel& dst, const PatchLevel* src, int coarser, const std::vector<RefineItem>& items, double time,
             bool phys) const
   {
      std::shared_ptr<hier::BaseGridGeometry> geom = dst.getGridGeometry();
      std::vector<IntVector> sh = hier::periodicShifts(*geom, dst.getRatioToLevelZero());
      Box dom = Box::refine(geom->domain_, dst.getRatioToLevelZero());
      for (int d = 0; d < NDIM; d++)
         if (geom->periodic_[d]) dom.grow(d, 1000000);
      IntVector gmax(Dimension(NDIM), 0);
      for (auto& it : items)
         gmax.max(ghosts(it.scr));
      for (auto& p : dst.patches_) {
         Box want = Box::grow(p->getBox(), gmax) * dom;
         hier::BoxContainer miss(want);
         if (src) {
            for (auto& q : src->patches_)
               for (auto& s : sh)
                  miss.removeIntersections(Box::shift(q->getBox(), s));
         }
         // coarse-level interpolation first, so that it never overwrites copies
         if (!miss.empty() && coarser >= 0) {
            const PatchLevel& cl = *h_->getPatchLevel(coarser);
            IntVector r = dst.getRatioToLevelZero() / cl.getRatioToLevelZero();
            bool any = false;
            for (auto& it : items)
               any = any || it.op;
            if (any)
               for (auto& m : miss) {
                  std::shared_ptr<PatchLevel> tmp = sam_level(coarser, hier::BoxContainer(Box::coarsen(m, r)),
                                                              cl.getRatioToLevelZero(),
                                                              IntVector(Dimension(NDIM), 1), geom);
                  std::vector<RefineItem> ci;
                  for (auto& it : items)
                     if (it.op) {
                        RefineItem c = {it.scr, it.src, it.scr, it.op};
                        ci.push_back(c);
                        tmp->allocatePatchData(it.scr, time);
                        IntVector w = it.op->getStencilWidth(Dimension(NDIM));
                        if (!(w <= ghosts(it.scr))) throw SamAbort("refine stencil wider than the scratch ghosts");
                     }
                  // as in SAMRAI, the data interpolated from always has its
                  // physical boundary values if the operator reads ghosts
                  bool wide = false;
                  for (auto& c : ci)
                     wide = wide || c.op->getStencilWidth(Dimension(NDIM)).max() > 0;
                  fill(*tmp, &cl, coarser - 1, ci, time, wide);
                  Patch& cp = *tmp->patches_[0];
                  hier::BoxContainer one(m);
                  if (strat_) strat_->preprocessRefineBoxes(*p, cp, one, r);
                  for (auto& it : ci) {
                     // only cells inside the data's own ghost box
                     Box b = m * p->getPatchData(it.scr)->getGhostBox();
                     if (!b.empty())
                        it.op->refine(*p, cp, it.scr, it.scr, pdat::CellOverlap(hier::BoxContainer(b)), r);
                  }
                  if (strat_) strat_->postprocessRefineBoxes(*p, cp, one, r);
               }
         }
         if (src)
            for (auto& it : items) {
               std::shared_ptr<hier::PatchData> d = p->getPatchData(it.scr);
               Box w = d->getGhostBox() * dom;
               for (auto& s : sh)
                  for (auto& q : src->patches_) {
                     bool self = q->getPatchData(it.src) == d && s == IntVector(Dimension(NDIM), 0);
                     if (self) continue;
                     // data of the patch itself wins over that of neighbours
                     hier::BoxContainer b(w * Box::shift(q->getBox(), s));
                     bool own = it.src == it.scr && q->inHierarchy() && p->inHierarchy();
                     if (own) b.removeIntersections(p->getBox());
                     for (auto& x : b)
                        if (!x.empty()) d->copyRegion(*q->getPatchData(it.src), x, s);
                  }
            }
      }
      if (phys && strat_)
         for (auto& p : dst.patches_)
            if (p->getPatchGeometry()->getTouchesRegularBoundary())
               strat_->setPhysicalBoundaryConditions(*p, time, gmax);
   }

 public:
   void fillData(double time, bool phys = true) const
   {
      std::set<int> mine;
      for (auto& it : items_)
         if (!dst_->patches_.empty() && !dst_->patches_[0]->checkAllocated(it.scr)) {
            dst_->allocatePatchData(it.scr, time);
            mine.insert(it.scr);
         }
      // a snapshot of the sources, so that the result does not depend on the
      // order in which patches are visited
      fill(*dst_, src_.get(), coarser_, items_, time, phys);
      for (auto& it : items_)
         if (it.dst != it.scr)
            for (auto& p : dst_->patches_) {
               std::shared_ptr<hier::PatchData> d = p->getPatchData(it.dst), s = p->getPatchData(it.scr);
               d->copyRegion(*s, d->getGhostBox() * s->getGhostBox(), IntVector(Dimension(NDIM), 0));
               d->setTime(time);
            }
         else
            for (auto& p : dst_->patches_)
               p->getPatchData(it.dst)->setTime(time);
      for (int i : mine)
         dst_->deallocatePatchData(i);
   }
};

class RefineAlgorithm
{
   std::vector<RefineItem> items_;

 public:
   RefineAlgorithm() {}
   explicit RefineAlgorithm(const Dimension&) {}
   void registerRefine(int dst, int src, int scr, const std::shared_ptr<hier::RefineOperator>& op,
                       const std::shared_ptr<VariableFillPattern>& = std::shared_ptr<VariableFillPattern>())
   {
      RefineItem i = {dst, src, scr, op};
      items_.push_back(i);
   }
   typedef std::shared_ptr<PatchLevel> L;
   typedef std::shared_ptr<hier::PatchHierarchy> H;
   typedef std::shared_ptr<PatchLevelFillPattern> F;
   std::shared_ptr<RefineSchedule> createSchedule(const L& dst, const L& src, int coarser, const H& h,
                                                  RefinePatchStrategy* s = 0)
   {
      std::shared_ptr<RefineSchedule> r(new RefineSchedule());
      r->items_ = items_;
      r->dst_ = dst;
      r->src_ = src;
      r->coarser_ = coarser;
      r->h_ = h;
      r->strat_ = s;
      return r;
   }
   std::shared_ptr<RefineSchedule> createSchedule(const L& dst, RefinePatchStrategy* s = 0)
   {
      return createSchedule(dst, dst, -1, H(), s);
   }
   std::shared_ptr<RefineSchedule> createSchedule(const L& dst, const L& src, RefinePatchStrategy* s = 0)
   {
      return createSchedule(dst, src, -1, H(), s);
   }
   std::shared_ptr<RefineSchedule> createSchedule(const L& dst, int coarser, const H& h, RefinePatchStrategy* s = 0)
   {
      return createSchedule(dst, dst, coarser, h, s);
   }
   template <class P>
   std::shared_ptr<RefineSchedule> createSchedule(const std::shared_ptr<P>&, const L& dst, const L& src, int coarser,
                                                  const H& h, RefinePatchStrategy* s = 0)
   {
      return createSchedule(dst, src, coarser, h, s);
   }
   void resetSchedule(const std::shared_ptr<RefineSchedule>& r) const { r->items_ = items_; }
};

struct CoarsenItem {
   int dst, src;
   std::shared_ptr<hier::CoarsenOperator> op;
};
class CoarsenSchedule
{
 public:
   std::vector<CoarsenItem> items_;
   std::shared_ptr<PatchLevel> c_, f_;
   void coarsenData() const
   {
      IntVector r = f_->getRatioToLevelZero() / c_->getRatioToLevelZero();
      std::vector<IntVector> sh = hier::periodicShifts(*c_->getGridGeometry(), c_->getRatioToLevelZero());
      for (auto& fp : f_->patches_) {
         Box cb = Box::coarsen(fp->getBox(), r);
         std::shared_ptr<PatchLevel> t = sam_level(c_->getLevelNumber(), hier::BoxContainer(cb),
                                                   c_->getRatioToLevelZero(), IntVector(Dimension(NDIM), 1),
                                                   c_->getGridGeometry());
         Patch& tp = *t->patches_[0];
         for (auto& it : items_) {
            if (!it.op) throw SamAbort("coarsen item without operator");
            t->allocatePatchData(it.src);
            it.op->coarsen(tp, *fp, it.src, it.src, cb, r);
            std::shared_ptr<hier::PatchData> s = tp.getPatchData(it.src);
            for (auto& cp : c_->patches_) {
               std::shared_ptr<hier::PatchData> d = cp->getPatchData(it.dst);
               for (auto& v : sh)
                  copyOverlap(*d, cp->getBox(), *s, cb, v);
            }
         }
      }
   }
   // values of `s` on cells (or sides) of box sb that belong to box db as well
   static void copyOverlap(hier::PatchData& d, const Box& db, const hier::PatchData& s, const Box& sb,
                           const IntVector& shift)
   {
      Box t = Box::shift(sb, shift);
      if (std::string(d.centering()) == "cell") {
         Box x = db * t;
         if (!x.empty()) d.copyRegion(s, x, shift);
         return;
      }
      pdat::SideData<double>* dd = dynamic_cast<pdat::SideData<double>*>(&d);
      const pdat::SideData<double>* sd = dynamic_cast<const pdat::SideData<double>*>(&s);
      const pdat::OutersideData<double>* od = dynamic_cast<const pdat::OutersideData<double>*>(&s);
      if (!dd || (!sd && !od)) throw SamAbort("coarsen: unsupported data");
      for (int a = 0; a < NDIM; a++) {
         Box x = pdat::SideGeometry::toSideBox(db, a) * pdat::SideGeometry::toSideBox(t, a);
         if (x.empty()) continue;
         if (sd)
            dd->getArrayData(a).copy(sd->getArrayData(a), x, shift);
         else
            for (int side = 0; side < 2; side++)
               dd->getArrayData(a).copy(od->getArrayData(a, side), x, shift);
      }
   }
};
class CoarsenAlgorithm
{
   std::vector<CoarsenItem> items_;

 public:
   explicit CoarsenAlgorithm(const Dimension&, bool = true) {}
   void registerCoarsen(int dst, int src, const std::shared_ptr<hier::CoarsenOperator>& op)
   {
      CoarsenItem i = {dst, src, op};
      items_.push_back(i);
   }
   void registerCoarsen(int dst, int src, const std::shared_ptr<hier::CoarsenOperator>& op, const IntVector&)
   {
      registerCoarsen(dst, src, op);
   }
   std::shared_ptr<CoarsenSchedule> createSchedule(const std::shared_ptr<PatchLevel>& c,
                                                   const std::shared_ptr<PatchLevel>& f,
                                                   void* = 0)
   {
      std::shared_ptr<CoarsenSchedule> s(new CoarsenSchedule());
      s->items_ = items_;
      s->c_ = c;
      s->f_ = f;
      return s;
   }
   void resetSchedule(const std::shared_ptr<CoarsenSchedule>& s) const { s->items_ = items_; }
};
}  // namespace xfer
}  // namespace SAMRAI
#endif
