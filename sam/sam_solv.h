// Test double of SAMRAI's solv package, of the sundials interface AMPE uses,
// and of the Fortran helpers of SAMRAI's boundary code.
#ifndef sam_solv_h
#define sam_solv_h
#include "sam_math.h"
#include "sam_xfer.h"

namespace SAMRAI
{
namespace solv
{
using hier::Box;
using hier::Index;
using hier::IntVector;
using tbox::Dimension;

class RobinBcCoefStrategy
{
 public:
   RobinBcCoefStrategy() {}
   virtual ~RobinBcCoefStrategy() {}
   virtual void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double> >& acoef,
                           const std::shared_ptr<pdat::ArrayData<double> >& bcoef,
                           const std::shared_ptr<pdat::ArrayData<double> >& gcoef,
                           const std::shared_ptr<hier::Variable>& variable, const hier::Patch& patch,
                           const hier::BoundaryBox& bdry_box, double fill_time = 0.0) const = 0;
   virtual IntVector numberOfExtensionsFillable() const = 0;
};
class LocationIndexRobinBcCoefs : public RobinBcCoefStrategy
{
   double a_[6], b_[6], g_[6];
   std::string name_;

 public:
   const std::string& getObjectName() const { return name_; }
   LocationIndexRobinBcCoefs(const Dimension&, const std::string& n,
                             const std::shared_ptr<tbox::Database>& db = std::shared_ptr<tbox::Database>())
   {
      for (int i = 0; i < 6; i++) {
         a_[i] = 1;
         b_[i] = 0;
         g_[i] = 0;
      }
      if (!db) return;
      for (int i = 0; i < 2 * NDIM; i++) {
         std::string k = "boundary_" + tbox::Utilities::intToString(i);
         if (!db->isString(k)) continue;
         std::vector<std::string> s = db->getStringVector(k);
         if (s[0] == "value") {
            a_[i] = 1;
            b_[i] = 0;
            g_[i] = atof(s.at(1).c_str());
         } else if (s[0] == "slope") {
            a_[i] = 0;
            b_[i] = 1;
            g_[i] = atof(s.at(1).c_str());
         } else if (s[0] == "coefficients") {
            a_[i] = atof(s.at(1).c_str());
            b_[i] = atof(s.at(2).c_str());
            g_[i] = atof(s.at(3).c_str());
         } else
            throw SamAbort("LocationIndexRobinBcCoefs: bad specifier " + s[0]);
      }
   }
   void setBoundaryValue(int i, double v)
   {
      a_[i] = 1;
      b_[i] = 0;
      g_[i] = v;
   }
   void setBoundarySlope(int i, double v)
   {
      a_[i] = 0;
      b_[i] = 1;
      g_[i] = v;
   }
   void setRawCoefficients(int i, double a, double b, double g)
   {
      a_[i] = a;
      b_[i] = b;
      g_[i] = g;
   }
   void getCoefficients(int i, double& a, double& b, double& g) const
   {
      a = a_[i];
      b = b_[i];
      g = g_[i];
   }
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double> >& a,
                   const std::shared_ptr<pdat::ArrayData<double> >& b,
                   const std::shared_ptr<pdat::ArrayData<double> >& g, const std::shared_ptr<hier::Variable>&,
                   const hier::Patch&, const hier::BoundaryBox& bb, double = 0.0) const override
   {
      int l = bb.getLocationIndex();
      if (a) a->fillAll(a_[l]);
      if (b) b->fillAll(b_[l]);
      if (g) g->fillAll(g_[l]);
   }
   IntVector numberOfExtensionsFillable() const override { return IntVector(Dimension(NDIM), 1000); }
};
class GhostCellRobinBcCoefs : public RobinBcCoefStrategy
{
   int id_;

 public:
   GhostCellRobinBcCoefs(const Dimension&, const std::string&) : id_(-1) {}
   void setGhostDataId(int id, const IntVector&) { id_ = id; }
   // ghost values that are kept: u_o = stored value at the ghost cell centre
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double> >& a,
                   const std::shared_ptr<pdat::ArrayData<double> >& b,
                   const std::shared_ptr<pdat::ArrayData<double> >& g, const std::shared_ptr<hier::Variable>&,
                   const hier::Patch& patch, const hier::BoundaryBox& bb, double = 0.0) const override
   {
      auto pg = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(patch.getPatchGeometry());
      double h = pg->getDx()[bb.getLocationIndex() / 2];
      if (a) a->fillAll(1. / (1 + .5 * h));
      if (b) b->fillAll(.5 * h / (1 + .5 * h));
      if (g) {
         if (id_ < 0) throw SamAbort("GhostCellRobinBcCoefs");
         g->fillAll(0.);
      }
   }
   IntVector numberOfExtensionsFillable() const override { return IntVector(Dimension(NDIM), 1000); }
};
// "Dirichlet": the boundary value of a side is the value found in the ghost
// cell outside it when the data was cached.  "Neumann": homogeneous.
class SimpleCellRobinBcCoefs : public RobinBcCoefStrategy
{
   bool dirichlet_ = true;
   std::shared_ptr<hier::PatchHierarchy> h_;
   int l0_ = 0, l1_ = -1;
   std::map<std::pair<hier::GlobalId, int>, std::shared_ptr<pdat::ArrayData<double> > > cache_;
   template <class F>
   void sides(F f)
   {
      for (int l = l0_; h_ && l <= l1_ && l < h_->getNumberOfLevels(); l++)
         for (auto& p : h_->getPatchLevel(l)->patches_)
            for (auto& bb : std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p->getPatchGeometry())
                                ->getCodimensionBoundaries(1)) {
               Box b = hier::BoundaryBoxUtils(bb).trimBoundaryBox(p->getBox()).getBox();
               f(*p, bb.getLocationIndex(), b);
            }
   }

 public:
   SimpleCellRobinBcCoefs(const Dimension&, const std::string& = "") {}
   void setHierarchy(const std::shared_ptr<hier::PatchHierarchy>& h, int l0 = -1, int l1 = -1)
   {
      h_ = h;
      l0_ = l0 < 0 ? 0 : l0;
      l1_ = l1 < 0 ? 1000 : l1;
      cache_.clear();
   }
   void setDiffusionCoefConstant(double) {}
   void setDiffusionCoefId(int) {}
   void setBoundaries(const std::string& t, int = -1, int = -1, int* = 0)
   {
      if (t != "Dirichlet" && t != "Neumann") throw SamAbort("SimpleCellRobinBcCoefs " + t);
      dirichlet_ = t == "Dirichlet";
   }
   void cacheDirichletData(int id)
   {
      sides([&](hier::Patch& p, int loc, const Box& b) {
         auto d = std::dynamic_pointer_cast<pdat::CellData<double> >(p.getPatchData(id));
         auto a = std::make_shared<pdat::ArrayData<double> >(b, d->getDepth());
         for (int k = 0; k < (int)d->getDepth(); k++)
            for (auto i = b.begin(); i != b.end(); ++i)
               (*a)(*i, k) = (*d)(pdat::CellIndex(*i), k);
         cache_[std::make_pair(p.getGlobalId(), loc)] = a;
      });
   }
   void restoreDirichletData(int id)
   {
      sides([&](hier::Patch& p, int loc, const Box& b) {
         auto d = std::dynamic_pointer_cast<pdat::CellData<double> >(p.getPatchData(id));
         auto a = cache_[std::make_pair(p.getGlobalId(), loc)];
         if (!a) return;
         for (int k = 0; k < (int)d->getDepth(); k++)
            for (auto i = b.begin(); i != b.end(); ++i)
               (*d)(pdat::CellIndex(*i), k) = (*a)(*i, k);
      });
   }
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double> >& a, const std::shared_ptr<pdat::ArrayData<double> >& b,
                   const std::shared_ptr<pdat::ArrayData<double> >& g, const std::shared_ptr<hier::Variable>&,
                   const hier::Patch& p, const hier::BoundaryBox& bb, double = 0.0) const override
   {
      if (a) a->fillAll(dirichlet_ ? 1. : 0.);
      if (b) b->fillAll(dirichlet_ ? 0. : 1.);
      if (!g) return;
      g->fillAll(0.);
      if (!dirichlet_) return;
      int loc = bb.getLocationIndex(), n = loc / 2;
      auto c = cache_.find(std::make_pair(p.getGlobalId(), loc));
      if (c == cache_.end()) throw SamAbort("SimpleCellRobinBcCoefs: no cached Dirichlet data");
      Box gb = g->getBox();
      for (auto i = gb.begin(); i != gb.end(); ++i) {
         Index o(*i);
         if (loc % 2 == 0) o[n]--;
         if (c->second->getBox().contains(o)) (*g)(*i, 0) = (*c->second)(o, 0);
      }
   }
   IntVector numberOfExtensionsFillable() const override { return IntVector(Dimension(NDIM), 0); }
};
// ghost value from a*u + b*du/dn = g, by linear interpolation across the face
inline double robin_ghost(double a, double b, double g, double ui, double h)
{
   return (h * g + ui * (b - .5 * h * a)) / (b + .5 * h * a);
}
class CartesianRobinBcHelper : public xfer::RefinePatchStrategy
{
   const RobinBcCoefStrategy* s_;
   int id_;
   bool hom_;

 public:
   explicit CartesianRobinBcHelper(const Dimension&, std::string = std::string(), RobinBcCoefStrategy* s = 0)
       : s_(s), id_(-1), hom_(false)
   {
   }
   void setCoefImplementation(const RobinBcCoefStrategy* s) { s_ = s; }
   void setTargetDataId(int i) { id_ = i; }
   void setHomogeneousBc(bool h) { hom_ = h; }
   void setPhysicalBoundaryConditions(hier::Patch& p, const double t, const IntVector& g) override
   {
      setBoundaryValuesInCells(p, t, g, id_, hom_);
   }
   IntVector getRefineOpStencilWidth(const Dimension& d) const override { return IntVector(d, 0); }
   void preprocessRefine(hier::Patch&, const hier::Patch&, const Box&, const IntVector&) override {}
   void postprocessRefine(hier::Patch&, const hier::Patch&, const Box&, const IntVector&) override {}
   void setBoundaryValuesInCells(hier::PatchLevel& l, double t, const IntVector& g, int id, bool hom = false) const
   {
      for (auto& p : l.patches_)
         setBoundaryValuesInCells(*p, t, g, id, hom);
   }
   void setBoundaryValuesInCells(hier::Patch& p, double t, const IntVector& gw, int id, bool hom = false) const
   {
      auto d = std::dynamic_pointer_cast<pdat::CellData<double> >(p.getPatchData(id));
      if (!d || !s_) throw SamAbort("CartesianRobinBcHelper: no data or no coefficients");
      std::shared_ptr<hier::Variable> v;
      hier::VariableDatabase::getDatabase()->mapIndexToVariable(id, v);
      auto pg = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p.getPatchGeometry());
      IntVector g = IntVector::min(gw, d->getGhostCellWidth());
      if (g == IntVector(Dimension(NDIM), 0)) return;
      for (auto& bb : pg->getCodimensionBoundaries(1)) {
         int l = bb.getLocationIndex(), n = l / 2;
         if (!g[n]) continue;
         Box fill = bb.getBox() * d->getGhostBox();
         Box face(fill);
         if (l % 2 == 0) face.shift(n, 1);
         auto a = std::make_shared<pdat::ArrayData<double> >(face, 1);
         auto b = std::make_shared<pdat::ArrayData<double> >(face, 1);
         auto c = hom ? std::shared_ptr<pdat::ArrayData<double> >()
                      : std::make_shared<pdat::ArrayData<double> >(face, 1);
         s_->setBcCoefs(a, b, c, v, p, bb, t);
         for (int k = 0; k < 1; k++)  // SAMRAI's helper only handles depth 0
            for (auto i = fill.begin(); i != fill.end(); ++i) {
               Index in(*i), f(*i);
               in[n] += l % 2 ? -1 : 1;
               if (l % 2 == 0) f[n]++;
               (*d)(pdat::CellIndex(*i), k) = robin_ghost((*a)(f, 0), (*b)(f, 0), c ? (*c)(f, 0) : 0,
                                                          (*d)(pdat::CellIndex(in), k), pg->getDx()[n]);
            }
      }
      corners(*d, *pg, p.getBox(), 1);
   }
   // linear extrapolation from the faces into edges and corners
   static void corners(pdat::CellData<double>& d, const geom::CartesianPatchGeometry& pg, const Box& pb, int depth)
   {
      for (int codim = 2; codim <= NDIM; codim++)
         for (auto& bb : pg.getCodimensionBoundaries(codim)) {
            Box x = bb.getBox() * d.getGhostBox();
            for (int k = 0; k < depth; k++)
               for (auto i = x.begin(); i != x.end(); ++i) {
                  // point inside, and one point per outward direction
                  Index in(*i);
                  std::vector<int> dirs;
                  for (int q = 0; q < NDIM; q++)
                     if (bb.getBox().upper(q) < pb.lower(q)) {
                        in[q] = pb.lower(q);
                        dirs.push_back(q);
                     } else if (bb.getBox().lower(q) > pb.upper(q)) {
                        in[q] = pb.upper(q);
                        dirs.push_back(q);
                     }
                  double s = d(pdat::CellIndex(in), k), v = s;
                  for (int q : dirs) {
                     Index e(in);
                     e[q] = (*i)[q];
                     v += d(pdat::CellIndex(e), k) - s;
                  }
                  d(pdat::CellIndex(*i), k) = v;
               }
         }
   }
};

template <class T>
class SAMRAIVectorReal
{
   std::string n_;
   std::shared_ptr<hier::PatchHierarchy> h_;
   int lo_, hi_;

 public:
   struct Comp {
      std::shared_ptr<hier::Variable> v;
      int id, cv;
   };
   std::vector<Comp> c_;
   SAMRAIVectorReal(const std::string& n, const std::shared_ptr<hier::PatchHierarchy>& h, int lo, int hi)
       : n_(n), h_(h), lo_(lo), hi_(hi)
   {
   }
   const std::string& getName() const { return n_; }
   std::shared_ptr<hier::PatchHierarchy> getPatchHierarchy() const { return h_; }
   int getCoarsestLevelNumber() const { return lo_; }
   int getFinestLevelNumber() const { return hi_; }
   int getNumberOfComponents() const { return (int)c_.size(); }
   void resetLevels(int lo, int hi)
   {
      lo_ = lo;
      hi_ = hi;
   }
   template <class OPS = int>
   void addComponent(const std::shared_ptr<hier::Variable>& v, int id, int cv = -1,
                     const std::shared_ptr<OPS>& = std::shared_ptr<OPS>())
   {
      Comp c = {v, id, cv};
      c_.push_back(c);
   }
   int getComponentDescriptorIndex(int i) const { return c_.at(i).id; }
   std::shared_ptr<hier::Variable> getComponentVariable(int i) const { return c_.at(i).v; }
   int getControlVolumeIndex(int i) const { return c_.at(i).cv; }
   std::shared_ptr<SAMRAIVectorReal> cloneVector(const std::string& n) const
   {
      std::shared_ptr<SAMRAIVectorReal> r(new SAMRAIVectorReal(n, h_, lo_, hi_));
      for (auto& c : c_)
         r->addComponent(c.v, hier::VariableDatabase::getDatabase()->registerClonedPatchDataIndex(c.v, c.id), c.cv);
      return r;
   }
   void allocateVectorData(double t = 0.)
   {
      for (int l = lo_; l <= hi_; l++)
         for (auto& c : c_)
            h_->getPatchLevel(l)->allocatePatchData(c.id, t);
   }
   void deallocateVectorData()
   {
      for (int l = lo_; l <= hi_; l++)
         for (auto& c : c_)
            h_->getPatchLevel(l)->deallocatePatchData(c.id);
   }
   void freeVectorComponents()
   {
      deallocateVectorData();
      for (auto& c : c_)
         hier::VariableDatabase::getDatabase()->removePatchDataIndex(c.id);
      c_.clear();
   }
   math::HierarchyCellDataOpsReal<T> ops() const { return math::HierarchyCellDataOpsReal<T>(h_, lo_, hi_); }
   void setToScalar(const T& v, bool in = true)
   {
      for (auto& c : c_)
         ops().setToScalar(c.id, v, in);
   }
   void copyVector(const std::shared_ptr<const SAMRAIVectorReal>& s, bool in = true) { copyVector(*s, in); }
   void copyVector(const SAMRAIVectorReal& s, bool in = true)
   {
      for (size_t i = 0; i < c_.size(); i++)
         ops().copyData(c_[i].id, s.c_[i].id, in);
   }
   template <class V>
   void linearSum(const T& a, const std::shared_ptr<V>& x, const T& b, const std::shared_ptr<V>& y, bool in = true)
   {
      for (size_t i = 0; i < c_.size(); i++)
         ops().linearSum(c_[i].id, a, x->c_[i].id, b, y->c_[i].id, in);
   }
   template <class V>
   void axpy(const T& a, const std::shared_ptr<V>& x, const std::shared_ptr<V>& y, bool in = true)
   {
      linearSum(a, x, T(1), y, in);
   }
   template <class V>
   void add(const std::shared_ptr<V>& x, const std::shared_ptr<V>& y, bool in = true)
   {
      linearSum(T(1), x, T(1), y, in);
   }
   template <class V>
   void subtract(const std::shared_ptr<V>& x, const std::shared_ptr<V>& y, bool in = true)
   {
      linearSum(T(1), x, T(-1), y, in);
   }
   template <class V>
   void scale(const T& a, const std::shared_ptr<V>& x, bool in = true)
   {
      for (size_t i = 0; i < c_.size(); i++)
         ops().scale(c_[i].id, a, x->c_[i].id, in);
   }
   std::shared_ptr<hier::PatchData> getComponentPatchData(int i, const hier::Patch& p) const
   {
      return p.getPatchData(c_.at(i).id);
   }
   // volume weighted when there are control volumes, as in SAMRAI
   double RMSNorm() const
   {
      double num = 0., den = 0.;
      for (auto& c : c_) {
         for (int l = lo_; l <= hi_; l++)
            for (auto& p : *h_->getPatchLevel(l)) {
               auto d = std::dynamic_pointer_cast<pdat::CellData<T> >(p->getPatchData(c.id));
               std::shared_ptr<pdat::CellData<double> > v;
               if (c.cv >= 0) v = std::dynamic_pointer_cast<pdat::CellData<double> >(p->getPatchData(c.cv));
               pdat::CellIterator e(pdat::CellGeometry::end(p->getBox()));
               for (pdat::CellIterator it(pdat::CellGeometry::begin(p->getBox())); it != e; ++it) {
                  const double w = v ? (*v)(*it) : 1.;
                  for (int k = 0; k < d->getDepth(); k++) {
                     num += w * (*d)(*it, k) * (*d)(*it, k);
                     den += w;
                  }
               }
            }
      }
      return den > 0. ? std::sqrt(num / den) : 0.;
   }
   double L2Norm(bool = false) const
   {
      double r = 0;
      for (auto& c : c_) {
         double n = ops().L2Norm(c.id, c.cv);
         r += n * n;
      }
      return std::sqrt(r);
   }
   double maxNorm() const
   {
      double r = 0;
      for (auto& c : c_)
         r = std::max(r, ops().maxNorm(c.id, c.cv));
      return r;
   }
   T dot(const std::shared_ptr<const SAMRAIVectorReal>& o) const
   {
      T r = 0;
      for (size_t i = 0; i < c_.size(); i++)
         r += ops().dot(c_[i].id, o->c_[i].id, c_[i].cv);
      return r;
   }
   void print(std::ostream&, bool = true) const {}
   std::ostream& getOutputStream() { return tbox::plog; }
   // visits the interior of every component: f(this value, x value, y value)
   template <class F>
   void zip(const SAMRAIVectorReal* x, const SAMRAIVectorReal* y, F f) const
   {
      for (size_t c = 0; c < c_.size(); c++)
         for (int l = lo_; l <= hi_; l++)
            for (auto& p : *h_->getPatchLevel(l)) {
               typedef pdat::CellData<T> D;
               auto a = std::dynamic_pointer_cast<D>(p->getPatchData(c_[c].id));
               auto b = x ? std::dynamic_pointer_cast<D>(p->getPatchData(x->c_[c].id)) : a;
               auto d = y ? std::dynamic_pointer_cast<D>(p->getPatchData(y->c_[c].id)) : a;
               std::shared_ptr<pdat::CellData<double> > v;
               if (c_[c].cv >= 0) v = std::dynamic_pointer_cast<pdat::CellData<double> >(p->getPatchData(c_[c].cv));
               pdat::CellIterator e(pdat::CellGeometry::end(p->getBox()));
               for (int k = 0; k < a->getDepth(); k++)
                  for (pdat::CellIterator it(pdat::CellGeometry::begin(p->getBox())); it != e; ++it)
                     f((*a)(*it, k), (*b)(*it, k), (*d)(*it, k), v ? (*v)(*it) : 1.);
            }
   }
   typedef std::shared_ptr<SAMRAIVectorReal> SV;
   void multiply(const SV& x, const SV& y)
   {
      zip(x.get(), y.get(), [](T& a, T b, T c, double) { a = b * c; });
   }
   void divide(const SV& x, const SV& y)
   {
      zip(x.get(), y.get(), [](T& a, T b, T c, double) { a = b / c; });
   }
   void abs(const SV& x)
   {
      zip(x.get(), 0, [](T& a, T b, T, double) { a = std::fabs(b); });
   }
   void reciprocal(const SV& x)
   {
      zip(x.get(), 0, [](T& a, T b, T, double) { a = 1. / b; });
   }
   void addScalar(const SV& x, const T& s)
   {
      zip(x.get(), 0, [&](T& a, T b, T, double) { a = b + s; });
   }
   void compareToScalar(const SV& x, const T& s)
   {
      zip(x.get(), 0, [&](T& a, T b, T, double) { a = std::fabs(b) >= s ? 1. : 0.; });
   }
   int testReciprocal(const SV& x)
   {
      int ok = 1;
      zip(x.get(), 0, [&](T& a, T b, T, double) {
         if (b == 0.) ok = 0;
         a = b == 0. ? 0. : 1. / b;
      });
      return ok;
   }
   int computeConstrProdPos(const SV& x) const
   {
      int ok = 1;
      zip(x.get(), 0, [&](T& a, T b, T, double w) {
         if (w > 0. && b != 0. && a * b <= 0.) ok = 0;
      });
      return ok;
   }
   double L1Norm() const
   {
      double r = 0.;
      zip(0, 0, [&](T& a, T, T, double w) { r += w * std::fabs(a); });
      return r;
   }
   double weightedL2Norm(const SV& w_) const
   {
      double r = 0.;
      zip(w_.get(), 0, [&](T& a, T b, T, double w) { r += w * a * a * b * b; });
      return std::sqrt(r);
   }
   double weightedRMSNorm(const SV& w_) const
   {
      double r = 0., n = 0.;
      zip(w_.get(), 0, [&](T& a, T b, T, double w) {
         r += w * a * a * b * b;
         n += w;
      });
      return n > 0. ? std::sqrt(r / n) : 0.;
   }
   double min() const
   {
      double r = 1.e300;
      zip(0, 0, [&](T& a, T, T, double) { r = std::min(r, (double)a); });
      return r;
   }
   long getLength() const
   {
      long n = 0;
      zip(0, 0, [&](T&, T, T, double w) { n += w > 0.; });
      return n;
   }
};
class FACOperatorStrategy
{
 public:
   virtual ~FACOperatorStrategy() {}
   typedef SAMRAIVectorReal<double> V;
   virtual void restrictSolution(const V& source, V& dest, int dest_ln) = 0;
   virtual void restrictResidual(const V& source, V& dest, int dest_ln) = 0;
   virtual void prolongErrorAndCorrect(const V& source, V& dest, int dest_ln) = 0;
   virtual void smoothError(V& error, const V& residual, int ln, int num_sweeps) = 0;
   virtual int solveCoarsestLevel(V& error, const V& residual, int coarsest_ln) = 0;
   virtual void computeCompositeResidualOnLevel(V& residual, const V& solution, const V& rhs, int ln,
                                                bool error_equation_indicator) = 0;
   virtual double computeResidualNorm(const V& residual, int fine_ln, int coarse_ln) = 0;
   virtual void initializeOperatorState(const V& solution, const V& rhs) {}
   virtual void deallocateOperatorState() {}
   virtual void postprocessOneCycle(int, const V&, const V&) {}
};
}  // namespace solv
}  // namespace SAMRAI

// SAMRAI's Fortran boundary routines
#define SAMRAI_F77_FUNC(name, NAME) name##_
#endif
