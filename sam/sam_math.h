// Test double of SAMRAI's math package.
#ifndef sam_math_h
#define sam_math_h
#include "sam_pdat.h"

namespace SAMRAI
{
namespace math
{
using hier::Box;
using hier::Index;
using hier::IntVector;

// Apply a function to all values of some data inside the cells of a box.
template <class T, class D>
struct PatchOps {
   static T* at(pdat::ArrayData<T>& a, const Index& i, int d) { return &a(i, d); }
   template <class F>
   static void each(const D& d, const Box& b, F f)
   {
      for (size_t p = 0; p < d.part_.size(); p++) {
         if (!d.part_[p]) continue;
         Box x = d.toPart(b, p) * d.part_[p]->getBox();
         for (int k = 0; k < d.part_[p]->getDepth(); k++)
            for (auto i = x.begin(); i != x.end(); ++i)
               f((int)p, *i, k);
      }
   }
   static T val(const D& d, int p, const Index& i, int k) { return (*d.part_[p])(i, k); }
   static T& ref(D& d, int p, const Index& i, int k) { return (*d.part_[p])(i, k); }
};
template <class T>
class ArrayDataBasicOps
{
   typedef pdat::ArrayData<T> A;
   template <class F>
   static void each(A& d, const Box& b, F f)
   {
      Box x = b * d.getBox();
      for (int k = 0; k < (int)d.getDepth(); k++)
         for (auto i = x.begin(); i != x.end(); ++i)
            d(*i, k) = f(*i, k);
   }

 public:
   void scale(A& d, const T& a, const A& s, const Box& b) const
   {
      each(d, b, [&](const Index& i, int k) { return a * s(i, k); });
   }
   void addScalar(A& d, const A& s, const T& a, const Box& b) const
   {
      each(d, b, [&](const Index& i, int k) { return a + s(i, k); });
   }
   void add(A& d, const A& s, const A& t, const Box& b) const
   {
      each(d, b, [&](const Index& i, int k) { return s(i, k) + t(i, k); });
   }
   void subtract(A& d, const A& s, const A& t, const Box& b) const
   {
      each(d, b, [&](const Index& i, int k) { return s(i, k) - t(i, k); });
   }
   void multiply(A& d, const A& s, const A& t, const Box& b) const
   {
      each(d, b, [&](const Index& i, int k) { return s(i, k) * t(i, k); });
   }
   void divide(A& d, const A& s, const A& t, const Box& b) const
   {
      each(d, b, [&](const Index& i, int k) { return s(i, k) / t(i, k); });
   }
};
#define SAM_PATCHOPS(CLS, DATA)                                                                                   \
   template <class T>                                                                                             \
   class CLS                                                                                                      \
   {                                                                                                              \
      typedef pdat::DATA<T> D;                                                                                    \
      typedef std::shared_ptr<D> P;                                                                               \
      typedef PatchOps<T, D> O;                                                                                   \
      typedef std::shared_ptr<pdat::CellData<double> > CV;                                                        \
                                                                                                                  \
    public:                                                                                                       \
      void setToScalar(const P& d, const T& v, const Box& b) const                                                \
      {                                                                                                           \
         O::each(*d, b, [&](int p, const Index& i, int k) { O::ref(*d, p, i, k) = v; });                          \
      }                                                                                                           \
      void addScalar(const P& d, const P& s, const T& v, const Box& b) const                                      \
      {                                                                                                           \
         O::each(*d, b, [&](int p, const Index& i, int k) { O::ref(*d, p, i, k) = O::val(*s, p, i, k) + v; });    \
      }                                                                                                           \
      void scale(const P& d, const T& a, const P& s, const Box& b) const                                          \
      {                                                                                                           \
         O::each(*d, b, [&](int p, const Index& i, int k) { O::ref(*d, p, i, k) = a * O::val(*s, p, i, k); });    \
      }                                                                                                           \
      void copyData(const P& d, const P& s, const Box& b) const                                                   \
      {                                                                                                           \
         O::each(*d, b, [&](int p, const Index& i, int k) { O::ref(*d, p, i, k) = O::val(*s, p, i, k); });        \
      }                                                                                                           \
      void add(const P& d, const P& s, const P& t, const Box& b) const                                            \
      {                                                                                                           \
         O::each(*d, b, [&](int p, const Index& i, int k) {                                                       \
            O::ref(*d, p, i, k) = O::val(*s, p, i, k) + O::val(*t, p, i, k);                                      \
         });                                                                                                      \
      }                                                                                                           \
      void subtract(const P& d, const P& s, const P& t, const Box& b) const                                       \
      {                                                                                                           \
         O::each(*d, b, [&](int p, const Index& i, int k) {                                                       \
            O::ref(*d, p, i, k) = O::val(*s, p, i, k) - O::val(*t, p, i, k);                                      \
         });                                                                                                      \
      }                                                                                                           \
      void multiply(const P& d, const P& s, const P& t, const Box& b) const                                       \
      {                                                                                                           \
         O::each(*d, b, [&](int p, const Index& i, int k) {                                                       \
            O::ref(*d, p, i, k) = O::val(*s, p, i, k) * O::val(*t, p, i, k);                                      \
         });                                                                                                      \
      }                                                                                                           \
      void divide(const P& d, const P& s, const P& t, const Box& b) const                                         \
      {                                                                                                           \
         O::each(*d, b, [&](int p, const Index& i, int k) {                                                       \
            O::ref(*d, p, i, k) = O::val(*s, p, i, k) / O::val(*t, p, i, k);                                      \
         });                                                                                                      \
      }                                                                                                           \
      void linearSum(const P& d, const T& a, const P& s, const T& c, const P& t, const Box& b) const              \
      {                                                                                                           \
         O::each(*d, b, [&](int p, const Index& i, int k) {                                                       \
            O::ref(*d, p, i, k) = a * O::val(*s, p, i, k) + c * O::val(*t, p, i, k);                              \
         });                                                                                                      \
      }                                                                                                           \
      void axpy(const P& d, const T& a, const P& s, const P& t, const Box& b) const                               \
      {                                                                                                           \
         linearSum(d, a, s, T(1), t, b);                                                                          \
      }                                                                                                           \
      T max(const P& d, const Box& b) const                                                                       \
      {                                                                                                           \
         T r = std::numeric_limits<T>::lowest();                                                                  \
         O::each(*d, b, [&](int p, const Index& i, int k) { r = std::max(r, O::val(*d, p, i, k)); });             \
         return r;                                                                                                \
      }                                                                                                           \
      T min(const P& d, const Box& b) const                                                                       \
      {                                                                                                           \
         T r = std::numeric_limits<T>::max();                                                                     \
         O::each(*d, b, [&](int p, const Index& i, int k) { r = std::min(r, O::val(*d, p, i, k)); });             \
         return r;                                                                                                \
      }                                                                                                           \
      double maxNorm(const P& d, const Box& b, const CV& = CV()) const                                            \
      {                                                                                                           \
         double r = 0;                                                                                            \
         O::each(*d, b, [&](int p, const Index& i, int k) {                                                       \
            r = std::max(r, std::fabs((double)O::val(*d, p, i, k)));                                              \
         });                                                                                                      \
         return r;                                                                                                \
      }                                                                                                           \
      double L1Norm(const P& d, const Box& b, const CV& c = CV()) const                                           \
      {                                                                                                           \
         double r = 0;                                                                                            \
         O::each(*d, b, [&](int p, const Index& i, int k) {                                                       \
            r += std::fabs((double)O::val(*d, p, i, k)) * (c ? (*c)(pdat::CellIndex(i)) : 1.);                    \
         });                                                                                                      \
         return r;                                                                                                \
      }                                                                                                           \
      double L2Norm(const P& d, const Box& b, const CV& c = CV()) const                                           \
      {                                                                                                           \
         double r = 0;                                                                                            \
         O::each(*d, b, [&](int p, const Index& i, int k) {                                                       \
            double v = O::val(*d, p, i, k);                                                                       \
            r += v * v * (c ? (*c)(pdat::CellIndex(i)) : 1.);                                                     \
         });                                                                                                      \
         return std::sqrt(r);                                                                                     \
      }                                                                                                           \
      T integral(const P& d, const Box& b, const CV& c) const                                                     \
      {                                                                                                           \
         T r = 0;                                                                                                 \
         O::each(*d, b, [&](int p, const Index& i, int k) {                                                       \
            r += O::val(*d, p, i, k) * (*c)(pdat::CellIndex(i));                                                  \
         });                                                                                                      \
         return r;                                                                                                \
      }                                                                                                           \
      T dot(const P& d, const P& s, const Box& b, const CV& c = CV()) const                                       \
      {                                                                                                           \
         T r = 0;                                                                                                 \
         O::each(*d, b, [&](int p, const Index& i, int k) {                                                       \
            r += O::val(*d, p, i, k) * O::val(*s, p, i, k) * (c ? (*c)(pdat::CellIndex(i)) : 1.);                 \
         });                                                                                                      \
         return r;                                                                                                \
      }                                                                                                           \
      double sumControlVolumes(const P& d, const CV& c, const Box& b) const                                       \
      {                                                                                                           \
         double r = 0;                                                                                            \
         O::each(*d, b, [&](int, const Index& i, int k) { if (!k) r += (*c)(pdat::CellIndex(i)); });              \
         return r;                                                                                                \
      }                                                                                                           \
   };
SAM_PATCHOPS(PatchCellDataOpsReal, CellData)
SAM_PATCHOPS(PatchSideDataOpsReal, SideData)
template <class T>
using PatchCellDataBasicOps = PatchCellDataOpsReal<T>;
template <class T>
using PatchCellDataNormOpsReal = PatchCellDataOpsReal<T>;
template <class T>
using PatchSideDataBasicOps = PatchSideDataOpsReal<T>;
template <class T>
using PatchSideDataNormOpsReal = PatchSideDataOpsReal<T>;

template <class T>
class ArrayDataNormOpsReal
{
 public:
   double maxNorm(const pdat::ArrayData<T>& a, const Box& b) const
   {
      double r = 0;
      Box x = b * a.getBox();
      for (int k = 0; k < a.getDepth(); k++)
         for (auto i = x.begin(); i != x.end(); ++i)
            r = std::max(r, std::fabs((double)a(*i, k)));
      return r;
   }
   double L1Norm(const pdat::ArrayData<T>& a, const Box& b) const
   {
      double r = 0;
      Box x = b * a.getBox();
      for (int k = 0; k < a.getDepth(); k++)
         for (auto i = x.begin(); i != x.end(); ++i)
            r += std::fabs((double)a(*i, k));
      return r;
   }
   double L2Norm(const pdat::ArrayData<T>& a, const Box& b) const
   {
      double r = 0;
      Box x = b * a.getBox();
      for (int k = 0; k < a.getDepth(); k++)
         for (auto i = x.begin(); i != x.end(); ++i)
            r += (double)a(*i, k) * a(*i, k);
      return std::sqrt(r);
   }
};

#define SAM_HIEROPS(CLS, POPS, DATA)                                                                        \
   template <class T>                                                                                       \
   class CLS                                                                                                \
   {                                                                                                        \
      std::shared_ptr<hier::PatchHierarchy> h_;                                                             \
      int lo_, hi_;                                                                                         \
      POPS<T> o_;                                                                                           \
      typedef std::shared_ptr<pdat::DATA<T> > P;                                                            \
      typedef std::shared_ptr<pdat::CellData<double> > CV;                                                  \
      static P g(const hier::Patch& p, int id)                                                              \
      {                                                                                                     \
         P d = std::dynamic_pointer_cast<pdat::DATA<T> >(p.getPatchData(id));                               \
         if (!d) throw SamAbort("hierarchy operation: patch data missing or of another type");              \
         return d;                                                                                          \
      }                                                                                                     \
      static CV cv(const hier::Patch& p, int id)                                                            \
      {                                                                                                     \
         return id < 0 ? CV() : std::dynamic_pointer_cast<pdat::CellData<double> >(p.getPatchData(id));     \
      }                                                                                                     \
      template <class F>                                                                                    \
      void each(F f) const                                                                                  \
      {                                                                                                     \
         for (int l = lo_; l <= hi_; l++)                                                                   \
            for (auto& p : h_->getPatchLevel(l)->patches_)                                                  \
               f(*p);                                                                                       \
      }                                                                                                     \
      static Box bx(const P& d, bool interior) { return interior ? d->getBox() : d->getGhostBox(); }        \
                                                                                                            \
    public:                                                                                                 \
      explicit CLS(const std::shared_ptr<hier::PatchHierarchy>& h)                                          \
          : h_(h), lo_(0), hi_(h->getFinestLevelNumber())                                                   \
      {                                                                                                     \
      }                                                                                                     \
      CLS(const std::shared_ptr<hier::PatchHierarchy>& h, int lo, int hi) : h_(h), lo_(lo), hi_(hi) {}      \
      void setPatchHierarchy(const std::shared_ptr<hier::PatchHierarchy>& h) { h_ = h; }                    \
      void resetLevels(int lo, int hi)                                                                      \
      {                                                                                                     \
         lo_ = lo;                                                                                          \
         hi_ = hi;                                                                                          \
      }                                                                                                     \
      const std::shared_ptr<hier::PatchHierarchy> getPatchHierarchy() const { return h_; }                  \
      void setToScalar(int id, const T& v, bool in = true) const                                            \
      {                                                                                                     \
         each([&](hier::Patch& p) { o_.setToScalar(g(p, id), v, bx(g(p, id), in)); });                      \
      }                                                                                                     \
      void copyData(int d, int s, bool in = true) const                                                     \
      {                                                                                                     \
         each([&](hier::Patch& p) {                                                                         \
            P a = g(p, d), b = g(p, s);                                                                     \
            o_.copyData(a, b, in ? a->getBox() : a->getGhostBox() * b->getGhostBox());                      \
         });                                                                                                \
      }                                                                                                     \
      void scale(int d, const T& a, int s, bool in = true) const                                            \
      {                                                                                                     \
         each([&](hier::Patch& p) { o_.scale(g(p, d), a, g(p, s), bx(g(p, d), in)); });                     \
      }                                                                                                     \
      void addScalar(int d, int s, const T& a, bool in = true) const                                        \
      {                                                                                                     \
         each([&](hier::Patch& p) { o_.addScalar(g(p, d), g(p, s), a, bx(g(p, d), in)); });                 \
      }                                                                                                     \
      void add(int d, int s, int t, bool in = true) const                                                   \
      {                                                                                                     \
         each([&](hier::Patch& p) { o_.add(g(p, d), g(p, s), g(p, t), bx(g(p, d), in)); });                 \
      }                                                                                                     \
      void subtract(int d, int s, int t, bool in = true) const                                              \
      {                                                                                                     \
         each([&](hier::Patch& p) { o_.subtract(g(p, d), g(p, s), g(p, t), bx(g(p, d), in)); });            \
      }                                                                                                     \
      void multiply(int d, int s, int t, bool in = true) const                                              \
      {                                                                                                     \
         each([&](hier::Patch& p) { o_.multiply(g(p, d), g(p, s), g(p, t), bx(g(p, d), in)); });            \
      }                                                                                                     \
      void divide(int d, int s, int t, bool in = true) const                                                \
      {                                                                                                     \
         each([&](hier::Patch& p) { o_.divide(g(p, d), g(p, s), g(p, t), bx(g(p, d), in)); });              \
      }                                                                                                     \
      void linearSum(int d, const T& a, int s, const T& c, int t, bool in = true) const                     \
      {                                                                                                     \
         each([&](hier::Patch& p) { o_.linearSum(g(p, d), a, g(p, s), c, g(p, t), bx(g(p, d), in)); });     \
      }                                                                                                     \
      void axpy(int d, const T& a, int s, int t, bool in = true) const                                      \
      {                                                                                                     \
         linearSum(d, a, s, T(1), t, in);                                                                   \
      }                                                                                                     \
      T max(int d, bool in = true) const                                                                    \
      {                                                                                                     \
         T r = std::numeric_limits<T>::lowest();                                                            \
         each([&](hier::Patch& p) { r = std::max(r, o_.max(g(p, d), bx(g(p, d), in))); });                  \
         return r;                                                                                          \
      }                                                                                                     \
      T min(int d, bool in = true) const                                                                    \
      {                                                                                                     \
         T r = std::numeric_limits<T>::max();                                                               \
         each([&](hier::Patch& p) { r = std::min(r, o_.min(g(p, d), bx(g(p, d), in))); });                  \
         return r;                                                                                          \
      }                                                                                                     \
      double maxNorm(int d, int v = -1) const                                                               \
      {                                                                                                     \
         double r = 0;                                                                                      \
         each([&](hier::Patch& p) { r = std::max(r, o_.maxNorm(g(p, d), p.getBox())); });                   \
         return r;                                                                                          \
      }                                                                                                     \
      double L1Norm(int d, int v = -1, bool = false) const                                                  \
      {                                                                                                     \
         double r = 0;                                                                                      \
         each([&](hier::Patch& p) { r += o_.L1Norm(g(p, d), p.getBox(), cv(p, v)); });                      \
         return r;                                                                                          \
      }                                                                                                     \
      double L2Norm(int d, int v = -1, bool = false) const                                                  \
      {                                                                                                     \
         double r = 0;                                                                                      \
         each([&](hier::Patch& p) {                                                                         \
            double n = o_.L2Norm(g(p, d), p.getBox(), cv(p, v));                                            \
            r += n * n;                                                                                     \
         });                                                                                                \
         return std::sqrt(r);                                                                               \
      }                                                                                                     \
      T dot(int d, int s, int v = -1, bool = false) const                                                   \
      {                                                                                                     \
         T r = 0;                                                                                           \
         each([&](hier::Patch& p) { r += o_.dot(g(p, d), g(p, s), p.getBox(), cv(p, v)); });                \
         return r;                                                                                          \
      }                                                                                                     \
      T integral(int d, int v) const                                                                        \
      {                                                                                                     \
         T r = 0;                                                                                           \
         each([&](hier::Patch& p) { r += o_.integral(g(p, d), p.getBox(), cv(p, v)); });                    \
         return r;                                                                                          \
      }                                                                                                     \
      double sumControlVolumes(int d, int v) const                                                          \
      {                                                                                                     \
         double r = 0;                                                                                      \
         each([&](hier::Patch& p) { r += o_.sumControlVolumes(g(p, d), cv(p, v), p.getBox()); });           \
         return r;                                                                                          \
      }                                                                                                     \
      int numberOfEntries(int d, bool = true) const                                                         \
      {                                                                                                     \
         int n = 0;                                                                                         \
         each([&](hier::Patch& p) { n += p.getBox().size() * g(p, d)->getDepth(); });                       \
         return n;                                                                                          \
      }                                                                                                     \
      void printData(int, std::ostream&, bool = true) const {}                                              \
   };
SAM_HIEROPS(HierarchyCellDataOpsReal, PatchCellDataOpsReal, CellData)
SAM_HIEROPS(HierarchySideDataOpsReal, PatchSideDataOpsReal, SideData)
template <class T>
using HierarchyCellDataOpsInteger = HierarchyCellDataOpsReal<T>;
// SAMRAI hands out operations that suit a variable; here: cell data only
template <class T>
using HierarchyDataOpsReal = HierarchyCellDataOpsReal<T>;
class HierarchyDataOpsManager
{
 public:
   static HierarchyDataOpsManager* getManager()
   {
      static HierarchyDataOpsManager m;
      return &m;
   }
   std::shared_ptr<HierarchyDataOpsReal<double> > getOperationsDouble(
       const std::shared_ptr<hier::Variable>&, const std::shared_ptr<hier::PatchHierarchy>& h, bool = false)
   {
      return std::make_shared<HierarchyDataOpsReal<double> >(h, 0, h->getFinestLevelNumber());
   }
};
}  // namespace math
}  // namespace SAMRAI
#endif
