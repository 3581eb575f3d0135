// Test double of SAMRAI's pdat and geom packages (single process).
#ifndef sam_pdat_h
#define sam_pdat_h
#include "sam_hier.h"

namespace SAMRAI
{
namespace pdat
{
using hier::Box;
using hier::Index;
using hier::IntVector;
using tbox::Dimension;

class CellIndex : public Index
{
 public:
   explicit CellIndex(const Dimension& d) : Index(d, 0) {}
   CellIndex(const Index& i) : Index(i) {}
   CellIndex operator+(const IntVector& o) const { return CellIndex(Index::operator+(o)); }
   CellIndex operator-(const IntVector& o) const { return CellIndex(Index::operator-(o)); }
};
class CellIterator
{
   Box::iterator it_;
   mutable std::shared_ptr<CellIndex> c_;

 public:
   CellIterator(const Box& b, bool begin) : it_(b, begin), c_(new CellIndex(*it_)) {}
   CellIterator(const CellIterator& o) : it_(o.it_), c_(new CellIndex(*o.it_)) {}
   CellIterator& operator=(const CellIterator& o)
   {
      it_ = o.it_;
      c_.reset(new CellIndex(*it_));
      return *this;
   }
   const CellIndex& operator*() const
   {
      *c_ = CellIndex(*it_);
      return *c_;
   }
   const CellIndex* operator->() const { return &**this; }
   CellIterator& operator++()
   {
      ++it_;
      return *this;
   }
   CellIterator operator++(int)
   {
      CellIterator t(*this);
      ++it_;
      return t;
   }
   bool operator==(const CellIterator& o) const { return it_ == o.it_; }
   bool operator!=(const CellIterator& o) const { return it_ != o.it_; }
};
struct CellGeometry {
   static CellIterator begin(const Box& b) { return CellIterator(b, true); }
   static CellIterator end(const Box& b) { return CellIterator(b, false); }
   static Box toCellBox(const Box& b) { return b; }
};
class SideIndex : public Index
{
   unsigned axis_;

 public:
   enum { X = 0, Y = 1, Z = 2, Lower = 0, Upper = 1 };
   explicit SideIndex(const Dimension& d) : Index(d, 0), axis_(0) {}
   SideIndex(const Index& i, int axis, int side) : Index(i), axis_(axis) { (*this)[axis] += side; }
   unsigned getAxis() const { return axis_; }
   void setAxis(int a) { axis_ = a; }
   CellIndex toCell(int side) const
   {
      Index i(*this);
      i[axis_] += side - 1;
      return CellIndex(i);
   }
};
struct SideGeometry {
   static Box toSideBox(const Box& b, int axis)
   {
      Box r(b);
      if (!r.empty()) r.upper(axis)++;
      return r;
   }
   static class SideIterator begin(const Box& b, int axis);
   static class SideIterator end(const Box& b, int axis);
};
class SideIterator
{
   Box::iterator it_;
   int axis_;
   mutable std::shared_ptr<SideIndex> c_;

 public:
   SideIterator(const Box& b, int axis, bool begin)
       : it_(SideGeometry::toSideBox(b, axis), begin), axis_(axis), c_(new SideIndex(*it_, axis, 0))
   {
   }
   SideIterator(const SideIterator& o) : it_(o.it_), axis_(o.axis_), c_(new SideIndex(*o.it_, o.axis_, 0)) {}
   const SideIndex& operator*() const
   {
      *c_ = SideIndex(*it_, axis_, 0);
      return *c_;
   }
   SideIterator& operator++()
   {
      ++it_;
      return *this;
   }
   SideIterator operator++(int)
   {
      SideIterator t(*this);
      ++it_;
      return t;
   }
   bool operator==(const SideIterator& o) const { return it_ == o.it_; }
   bool operator!=(const SideIterator& o) const { return it_ != o.it_; }
};
inline SideIterator SideGeometry::begin(const Box& b, int a) { return SideIterator(b, a, true); }
inline SideIterator SideGeometry::end(const Box& b, int a) { return SideIterator(b, a, false); }

template <class T>
T sam_poison();
template <>
inline double sam_poison<double>()
{
   return std::numeric_limits<double>::quiet_NaN();
}
template <>
inline float sam_poison<float>()
{
   return std::numeric_limits<float>::quiet_NaN();
}
template <>
inline int sam_poison<int>()
{
   return -987654321;
}
template <>
inline char sam_poison<char>()
{
   return 77;
}

template <class T>
class ArrayData
{
   enum { GUARD = 64 };
   Box box_;
   int depth_;
   std::vector<T> v_;
   static T guard() { return (T)(-7.25e11 > 0 ? 0 : 113); }

 public:
   ArrayData(const Box& b, int depth) : box_(b), depth_(depth), v_(b.size() * depth + 2 * GUARD, sam_poison<T>())
   {
      for (int i = 0; i < GUARD; i++)
         v_[i] = v_[v_.size() - 1 - i] = guard();
   }
   int guards() const
   {
      int n = 0;
      for (int i = 0; i < GUARD; i++)
         n += !(v_[i] == guard()) + !(v_[v_.size() - 1 - i] == guard());
      return n;
   }
   const Box& getBox() const { return box_; }
   int getDepth() const { return depth_; }
   size_t getOffset() const { return box_.size(); }
   bool isInitialized() const { return true; }
   Dimension getDim() const { return box_.getDim(); }
   T* getPointer(int d = 0)
   {
      assert(d >= 0 && d < depth_);
      return v_.data() + GUARD + d * box_.size();
   }
   const T* getPointer(int d = 0) const
   {
      assert(d >= 0 && d < depth_);
      return v_.data() + GUARD + d * box_.size();
   }
   T& operator()(const Index& i, int d)
   {
      check(i, d);
      return v_[GUARD + d * box_.size() + box_.offset(i)];
   }
   const T& operator()(const Index& i, int d) const
   {
      check(i, d);
      return v_[GUARD + d * box_.size() + box_.offset(i)];
   }
   void check(const Index& i, int d) const
   {
      if (d < 0 || d >= depth_ || !box_.contains(i)) {
         std::ostringstream o;
         o << "array access out of bounds: index " << static_cast<const IntVector&>(i) << " depth " << d << " of "
           << box_ << " depth " << depth_;
         throw SamAbort(o.str());
      }
   }
   void fill(const T& t, int d = 0) { std::fill(getPointer(d), getPointer(d) + box_.size(), t); }
   void fill(const T& t, const Box& b, int d = 0)
   {
      Box x = b * box_;
      for (auto i = x.begin(); i != x.end(); ++i)
         (*this)(*i, d) = t;
   }
   void fillAll(const T& t)
   {
      for (int d = 0; d < depth_; d++)
         fill(t, d);
   }
   void fillAll(const T& t, const Box& b)
   {
      for (int d = 0; d < depth_; d++)
         fill(t, b, d);
   }
   void copy(const ArrayData& s, const Box& b, const IntVector& shift)
   {
      Box x = b * box_ * Box::shift(s.box_, shift);
      for (int d = 0; d < std::min(depth_, s.depth_); d++)
         for (auto i = x.begin(); i != x.end(); ++i)
            (*this)(*i, d) = s(Index(*i - shift), d);
   }
   void copy(const ArrayData& s, const Box& b) { copy(s, b, IntVector(b.getDim(), 0)); }
   void copyDepth(int dd, const ArrayData& s, int sd, const Box& b)
   {
      Box x = b * box_ * s.box_;
      for (auto i = x.begin(); i != x.end(); ++i)
         (*this)(*i, dd) = s(*i, sd);
   }
};

// a set of array parts, each with its own centering
template <class T>
class PartData : public hier::PatchData
{
 public:
   std::vector<std::shared_ptr<ArrayData<T> > > part_;
   int depth_;
   PartData(const Box& b, const IntVector& g, int depth) : hier::PatchData(b, g), depth_(depth) {}
   virtual Box toPart(const Box& cells, int part) const = 0;
   int getDepth() const { return depth_; }
   int depth() const override { return depth_; }
   bool isInt() const override { return std::is_same<T, int>::value; }
   int rawParts() const override { return (int)part_.size(); }
   void* rawPart(int p, int* lo, int* hi) override
   {
      if (!part_[p]) return 0;
      for (int d = 0; d < NDIM; d++) {
         lo[d] = part_[p]->getBox().lower(d);
         hi[d] = part_[p]->getBox().upper(d);
      }
      return part_[p]->getPointer();
   }
   int guards() const override
   {
      int n = 0;
      for (auto& a : part_)
         if (a) n += a->guards();
      return n;
   }
   void fillAll(const T& t)
   {
      for (auto& a : part_)
         if (a) a->fillAll(t);
   }
   void fillAll(const T& t, const Box& b)
   {
      for (size_t i = 0; i < part_.size(); i++)
         if (part_[i]) part_[i]->fillAll(t, toPart(b, i));
   }
   void fill(const T& t, int d = 0)
   {
      for (auto& a : part_)
         if (a) a->fill(t, d);
   }
   void fill(const T& t, const Box& b, int d = 0)
   {
      for (size_t i = 0; i < part_.size(); i++)
         if (part_[i]) part_[i]->fill(t, toPart(b, i), d);
   }
   void copy(const hier::PatchData& s) override { copyRegion(s, gbox_, IntVector(getDim(), 0)); }
   void copyRegion(const hier::PatchData& s, const Box& cells, const IntVector& shift) override
   {
      const PartData& o = dynamic_cast<const PartData&>(s);
      for (size_t i = 0; i < part_.size(); i++)
         if (part_[i] && o.part_[i]) part_[i]->copy(*o.part_[i], toPart(cells, i), shift);
   }
   void copy(const hier::PatchData& s, const hier::BoxOverlap&) { copy(s); }
   void copyDepth(int dd, const PartData& s, int sd)
   {
      for (size_t i = 0; i < part_.size(); i++)
         part_[i]->copyDepth(dd, *s.part_[i], sd, toPart(gbox_, i));
   }
   void print(const Box&, std::ostream&, int = 12) const {}
   void print(const Box&, int, std::ostream&, int = 12) const {}
   void putToRestart(const std::shared_ptr<tbox::Database>&) const {}
};

template <class T>
class CellData : public PartData<T>
{
 public:
   CellData(const Box& b, int depth, const IntVector& g) : PartData<T>(b, g, depth)
   {
      this->part_.push_back(std::make_shared<ArrayData<T> >(this->gbox_, depth));
   }
   Box toPart(const Box& c, int) const override { return c; }
   const char* centering() const override { return "cell"; }
   std::shared_ptr<hier::PatchData> like(const Box& b, const IntVector& g) const override
   {
      return std::make_shared<CellData<T> >(b, this->depth_, g);
   }
   T* getPointer(int d = 0) { return this->part_[0]->getPointer(d); }
   const T* getPointer(int d = 0) const { return this->part_[0]->getPointer(d); }
   T& operator()(const CellIndex& i, int d = 0) { return (*this->part_[0])(i, d); }
   const T& operator()(const CellIndex& i, int d = 0) const { return (*this->part_[0])(i, d); }
   ArrayData<T>& getArrayData() { return *this->part_[0]; }
   const ArrayData<T>& getArrayData() const { return *this->part_[0]; }
   void copyOnBox(const CellData& s, const Box& b) { this->part_[0]->copy(*s.part_[0], b); }
};
template <class T>
class SideData : public PartData<T>
{
   IntVector dirs_;

 public:
   SideData(const Box& b, int depth, const IntVector& g, const IntVector& dirs)
       : PartData<T>(b, g, depth), dirs_(dirs)
   {
      for (int a = 0; a < NDIM; a++)
         this->part_.push_back(dirs[a] ? std::make_shared<ArrayData<T> >(SideGeometry::toSideBox(this->gbox_, a), depth)
                                       : std::shared_ptr<ArrayData<T> >());
   }
   SideData(const Box& b, int depth, const IntVector& g)
       : SideData(b, depth, g, IntVector(b.getDim(), 1))
   {
   }
   Box toPart(const Box& c, int a) const override { return SideGeometry::toSideBox(c, a); }
   const char* centering() const override { return "side"; }
   std::shared_ptr<hier::PatchData> like(const Box& b, const IntVector& g) const override
   {
      return std::make_shared<SideData<T> >(b, this->depth_, g, dirs_);
   }
   const IntVector& getDirectionVector() const { return dirs_; }
   T* getPointer(int a, int d = 0) { return this->part_[a]->getPointer(d); }
   const T* getPointer(int a, int d = 0) const { return this->part_[a]->getPointer(d); }
   T& operator()(const SideIndex& i, int d = 0) { return (*this->part_[i.getAxis()])(i, d); }
   const T& operator()(const SideIndex& i, int d = 0) const { return (*this->part_[i.getAxis()])(i, d); }
   ArrayData<T>& getArrayData(int a) { return *this->part_[a]; }
   const ArrayData<T>& getArrayData(int a) const { return *this->part_[a]; }
};
// all faces of the patch box only, indexed by (normal direction, side)
template <class T>
class OutersideData : public PartData<T>
{
 public:
   OutersideData(const Box& b, int depth) : PartData<T>(b, IntVector(b.getDim(), 0), depth)
   {
      for (int a = 0; a < NDIM; a++)
         for (int s = 0; s < 2; s++)
            this->part_.push_back(std::make_shared<ArrayData<T> >(layer(b, a, s), depth));
   }
   static Box layer(const Box& b, int a, int s)
   {
      Box r(b);
      if (s)
         r.lower(a) = r.upper(a) = b.upper(a) + 1;
      else
         r.upper(a) = b.lower(a);
      return r;
   }
   Box toPart(const Box& c, int p) const override { return SideGeometry::toSideBox(c, p / 2); }
   const char* centering() const override { return "outerside"; }
   std::shared_ptr<hier::PatchData> like(const Box& b, const IntVector&) const override
   {
      return std::make_shared<OutersideData<T> >(b, this->depth_);
   }
   T* getPointer(int a, int s, int d = 0) { return this->part_[2 * a + s]->getPointer(d); }
   const T* getPointer(int a, int s, int d = 0) const { return this->part_[2 * a + s]->getPointer(d); }
   ArrayData<T>& getArrayData(int a, int s) { return *this->part_[2 * a + s]; }
   const ArrayData<T>& getArrayData(int a, int s) const { return *this->part_[2 * a + s]; }
   // as in SAMRAI: also copies from side data
   void copy(const hier::PatchData& s) override
   {
      if (const SideData<T>* o = dynamic_cast<const SideData<T>*>(&s)) {
         for (int p = 0; p < 2 * NDIM; p++)
            this->part_[p]->copy(o->getArrayData(p / 2), this->part_[p]->getBox());
      } else
         PartData<T>::copy(s);
   }
   T& operator()(const SideIndex& i, int side, int d = 0) { return (*this->part_[2 * i.getAxis() + side])(i, d); }
};
struct NodeGeometry {
   static Box toNodeBox(const Box& b)
   {
      Box r(b);
      for (int d = 0; d < NDIM; d++)
         r.upper(d)++;
      return r;
   }
};
class NodeIndex : public Index
{
 public:
   explicit NodeIndex(const Index& i) : Index(i) {}
};
template <class T>
class NodeData : public PartData<T>
{
 public:
   NodeData(const Box& b, int depth, const IntVector& g) : PartData<T>(b, g, depth)
   {
      this->part_.push_back(std::make_shared<ArrayData<T> >(NodeGeometry::toNodeBox(this->gbox_), depth));
   }
   Box toPart(const Box& c, int) const override { return NodeGeometry::toNodeBox(c); }
   const char* centering() const override { return "node"; }
   std::shared_ptr<hier::PatchData> like(const Box& b, const IntVector& g) const override
   {
      return std::make_shared<NodeData<T> >(b, this->depth_, g);
   }
   T* getPointer(int d = 0) { return this->part_[0]->getPointer(d); }
};
template <class T>
class CellVariable : public hier::Variable
{
   int depth_;

 public:
   CellVariable(const Dimension&, const std::string& n, int depth = 1) : hier::Variable(n), depth_(depth) {}
   int getDepth() const override { return depth_; }
   std::shared_ptr<hier::PatchData> make(const Box& b, const IntVector& g) const override
   {
      return std::make_shared<CellData<T> >(b, depth_, g);
   }
};
template <class T>
class SideVariable : public hier::Variable
{
   int depth_;
   IntVector dirs_;

 public:
   SideVariable(const Dimension& d, const std::string& n, int depth = 1, bool = true)
       : hier::Variable(n), depth_(depth), dirs_(d, 1)
   {
   }
   SideVariable(const Dimension& d, const std::string& n, const IntVector& dirs, int depth = 1, bool = true)
       : hier::Variable(n), depth_(depth), dirs_(dirs)
   {
   }
   int getDepth() const override { return depth_; }
   std::shared_ptr<hier::PatchData> make(const Box& b, const IntVector& g) const override
   {
      return std::make_shared<SideData<T> >(b, depth_, g, dirs_);
   }
};
template <class T>
class OutersideVariable : public hier::Variable
{
   int depth_;

 public:
   OutersideVariable(const Dimension&, const std::string& n, int depth = 1) : hier::Variable(n), depth_(depth) {}
   int getDepth() const override { return depth_; }
   std::shared_ptr<hier::PatchData> make(const Box& b, const IntVector&) const override
   {
      return std::make_shared<OutersideData<T> >(b, depth_);
   }
};
template <class T>
class NodeVariable : public hier::Variable
{
   int depth_;

 public:
   NodeVariable(const Dimension&, const std::string& n, int depth = 1, bool = true) : hier::Variable(n), depth_(depth) {}
   int getDepth() const override { return depth_; }
   std::shared_ptr<hier::PatchData> make(const Box& b, const IntVector& g) const override
   {
      return std::make_shared<NodeData<T> >(b, depth_, g);
   }
};
class CellOverlap : public hier::BoxOverlap
{
   hier::BoxContainer b_;

 public:
   CellOverlap(const hier::BoxContainer& b) : b_(b) {}
   const hier::BoxContainer& getDestinationBoxContainer() const { return b_; }
   hier::BoxContainer getDestinationBoxContainer(int) const { return b_; }
   bool isOverlapEmpty() const override { return b_.empty(); }
};
class SideOverlap : public CellOverlap
{
 public:
   SideOverlap(const hier::BoxContainer& b) : CellOverlap(b) {}
};
template <class T>
class CopyOperation
{
 public:
   void operator()(T& d, const T& s) const { d = s; }
};
template <class T>
class SumOperation
{
 public:
   void operator()(T& d, const T& s) const { d += s; }
};
template <class T, class OP>
struct ArrayDataOperationUtilities {
   static void doArrayDataOperationOnBox(ArrayData<T>& dst, const ArrayData<T>& src, const Box& b,
                                         const IntVector& shift, unsigned dd, unsigned sd, unsigned nd, const OP& op)
   {
      Box x = b * dst.getBox() * Box::shift(src.getBox(), shift);
      for (unsigned k = 0; k < nd; k++)
         for (auto i = x.begin(); i != x.end(); ++i)
            op(dst(*i, dd + k), src(Index(*i - shift), sd + k));
   }
};

// ------------------------------------------------ built-in transfer operators
// constant refinement of cell data
class CellConstantRefine : public hier::RefineOperator
{
   std::string n_;

 public:
   CellConstantRefine() : hier::RefineOperator("CONSTANT_REFINE") {}
   int getOperatorPriority() const override { return 0; }
   IntVector getStencilWidth(const Dimension& d) const override { return IntVector(d, 0); }
   template <class T>
   static void go(hier::Patch& f, const hier::Patch& c, int dst, int src, const Box& fb, const IntVector& r)
   {
      auto fd = std::dynamic_pointer_cast<CellData<T> >(f.getPatchData(dst));
      auto cd = std::dynamic_pointer_cast<CellData<T> >(c.getPatchData(src));
      if (!fd || !cd) return;
      for (int k = 0; k < fd->getDepth(); k++)
         for (auto i = fb.begin(); i != fb.end(); ++i)
            (*fd)(CellIndex(*i), k) = (*cd)(CellIndex(Index::coarsen(*i, r)), k);
   }
   void refine(hier::Patch& f, const hier::Patch& c, const int dst, const int src, const Box& b,
               const IntVector& r) const
   {
      go<double>(f, c, dst, src, b, r);
      go<int>(f, c, dst, src, b, r);
   }
   void refine(hier::Patch& f, const hier::Patch& c, const int dst, const int src, const hier::BoxOverlap& o,
               const IntVector& r) const override
   {
      for (auto& b : dynamic_cast<const CellOverlap&>(o).getDestinationBoxContainer())
         refine(f, c, dst, src, b, r);
   }
};
typedef CellConstantRefine CellDoubleConstantRefine;
}  // namespace pdat
namespace geom
{
using hier::Box;
using hier::Index;
using hier::IntVector;
using tbox::Dimension;
class CartesianPatchGeometry : public hier::PatchGeometry
{
   double dx_[3], lo_[3], hi_[3];

 public:
   CartesianPatchGeometry(const IntVector& r, const double* dx, const double* lo, const double* hi)
       : hier::PatchGeometry(r)
   {
      for (int d = 0; d < NDIM; d++) {
         dx_[d] = dx[d];
         lo_[d] = lo[d];
         hi_[d] = hi[d];
      }
   }
   const double* getDx() const { return dx_; }
   const double* getXLower() const { return lo_; }
   const double* getXUpper() const { return hi_; }
};
class CartesianGridGeometry : public hier::BaseGridGeometry
{
   double lo_[3], hi_[3], dx_[3];

 public:
   CartesianGridGeometry(const std::string&, const double* lo, const double* hi, const hier::BoxContainer& dom)
       : hier::BaseGridGeometry(dom.front(), IntVector(Dimension(NDIM), 0))
   {
      set(lo, hi);
   }
   CartesianGridGeometry(const Box& dom, const double* lo, const double* hi, const IntVector& per)
       : hier::BaseGridGeometry(dom, per)
   {
      set(lo, hi);
   }
   CartesianGridGeometry(const Dimension&, const std::string&, const std::shared_ptr<tbox::Database>& db)
       : hier::BaseGridGeometry(Box(db->getDatabaseBox("domain_boxes")), IntVector(Dimension(NDIM), 0))
   {
      double lo[3], hi[3];
      db->getDoubleArray("x_lo", lo, NDIM);
      db->getDoubleArray("x_up", hi, NDIM);
      if (db->keyExists("periodic_dimension")) {
         int p[3];
         db->getIntegerArray("periodic_dimension", p, NDIM);
         for (int d = 0; d < NDIM; d++)
            periodic_[d] = p[d] ? domain_.numberCells(d) : 0;
      }
      set(lo, hi);
   }
   void set(const double* lo, const double* hi)
   {
      phys_ = hier::BoxContainer(domain_);
      for (int d = 0; d < NDIM; d++) {
         lo_[d] = lo[d];
         hi_[d] = hi[d];
         dx_[d] = (hi[d] - lo[d]) / domain_.numberCells(d);
      }
   }
   const double* getDx() const { return dx_; }
   const double* getXLower() const { return lo_; }
   const double* getXUpper() const { return hi_; }
   std::shared_ptr<hier::PatchGeometry> makeGeom(const Box& b, const IntVector& ratio) const override
   {
      double dx[3], lo[3], hi[3];
      Box dom = Box::refine(domain_, ratio);
      for (int d = 0; d < NDIM; d++) {
         dx[d] = dx_[d] / ratio[d];
         lo[d] = lo_[d] + (b.lower(d) - dom.lower(d)) * dx[d];
         hi[d] = lo_[d] + (b.upper(d) + 1 - dom.lower(d)) * dx[d];
      }
      auto g = std::make_shared<CartesianPatchGeometry>(ratio, dx, lo, hi);
      for (int d = 0; d < NDIM; d++)
         for (int s = 0; s < 2; s++)
            g->touch_[d][s] = !periodic_[d] && (s ? b.upper(d) == dom.upper(d) : b.lower(d) == dom.lower(d));
      // boundary boxes: every combination of touching faces
      int side[3];
      for (int m = 1; m < (NDIM == 2 ? 9 : 27); m++) {
         int q = m, codim = 0;
         bool ok = true;
         for (int d = 0; d < NDIM; d++, q /= 3) {
            side[d] = q % 3;  // 0 none 1 low 2 high
            if (side[d]) {
               codim++;
               ok = ok && g->touch_[d][side[d] - 1];
            }
         }
         if (!ok) continue;
         Box x(b);
         for (int d = 0; d < NDIM; d++)
            if (side[d] == 1)
               x.lower(d) = x.upper(d) = b.lower(d) - 1;
            else if (side[d] == 2)
               x.lower(d) = x.upper(d) = b.upper(d) + 1;
            else {
               // boundary boxes stick out by one cell along the boundary
               if (!g->touch_[d][0]) x.lower(d)--;
               if (!g->touch_[d][1]) x.upper(d)++;
            }
         g->bdry_[codim - 1].push_back(hier::BoundaryBox(x, codim, location(side, codim)));
      }
      for (auto& v : g->bdry_)
         std::sort(v.begin(), v.end(), [](const hier::BoundaryBox& a, const hier::BoundaryBox& c) {
            return a.getLocationIndex() < c.getLocationIndex();
         });
      return g;
   }
   static int location(const int* side, int codim)
   {
      int s[3];
      for (int d = 0; d < NDIM; d++)
         s[d] = side[d] == 2;
      if (codim == 1) {
         for (int d = 0; d < NDIM; d++)
            if (side[d]) return 2 * d + s[d];
      }
      if (codim == NDIM) return s[0] + 2 * s[1] + (NDIM == 3 ? 4 * s[2] : 0);
      // codimension 2 in 3D: 0-3 along z, 4-7 along y, 8-11 along x (the
      // numbering AMPE's CartesianRobinBcHelperWithDepth relies on)
      if (!side[2]) return s[0] + 2 * s[1];
      if (!side[1]) return 4 + s[0] + 2 * s[2];
      return 8 + s[1] + 2 * s[2];
   }
   void computePhysicalDomain(hier::BoxContainer& b, const IntVector& r, const hier::BlockId&) const
   {
      b = hier::BoxContainer(Box::refine(domain_, r));
   }
   void printClassData(std::ostream&) const {}
};
// conservative coarsening of cell and side data, linear refinements
class CellConservativeCoarsen : public hier::CoarsenOperator
{
 public:
   CellConservativeCoarsen() : hier::CoarsenOperator("CONSERVATIVE_COARSEN") {}
   int getOperatorPriority() const override { return 0; }
   IntVector getStencilWidth(const Dimension& d) const override { return IntVector(d, 0); }
   void coarsen(hier::Patch& c, const hier::Patch& f, const int dst, const int src, const Box& cb,
                const IntVector& r) const override
   {
      auto cd = std::dynamic_pointer_cast<pdat::CellData<double> >(c.getPatchData(dst));
      auto fd = std::dynamic_pointer_cast<pdat::CellData<double> >(f.getPatchData(src));
      if (!cd || !fd) throw SamAbort("CONSERVATIVE_COARSEN: not cell data");
      for (int k = 0; k < cd->getDepth(); k++)
         for (auto i = cb.begin(); i != cb.end(); ++i) {
            Box fb = Box::refine(Box(*i, *i), r);
            double s = 0;
            for (auto j = fb.begin(); j != fb.end(); ++j)
               s += (*fd)(pdat::CellIndex(*j), k);
            (*cd)(pdat::CellIndex(*i), k) = s / fb.size();
         }
   }
};
class SideConservativeCoarsen : public hier::CoarsenOperator
{
   bool outer_;

 public:
   SideConservativeCoarsen() : hier::CoarsenOperator("CONSERVATIVE_COARSEN") {}
   int getOperatorPriority() const override { return 0; }
   IntVector getStencilWidth(const Dimension& d) const override { return IntVector(d, 0); }
   void coarsen(hier::Patch& c, const hier::Patch& f, const int dst, const int src, const Box& cb,
                const IntVector& r) const override
   {
      auto cd = std::dynamic_pointer_cast<pdat::SideData<double> >(c.getPatchData(dst));
      auto fd = std::dynamic_pointer_cast<pdat::SideData<double> >(f.getPatchData(src));
      auto od = std::dynamic_pointer_cast<pdat::OutersideData<double> >(f.getPatchData(src));
      auto cod = std::dynamic_pointer_cast<pdat::OutersideData<double> >(c.getPatchData(dst));
      if ((!cd && !cod) || (!fd && !od)) throw SamAbort("CONSERVATIVE_COARSEN: not side data");
      const int depth = cd ? cd->getDepth() : cod->getDepth();
      for (int a = 0; a < NDIM; a++) {
         Box sb = pdat::SideGeometry::toSideBox(cb, a);
         for (int k = 0; k < depth; k++)
            for (auto i = sb.begin(); i != sb.end(); ++i) {
               Box fb = Box::refine(Box(*i, *i), r);
               fb.lower(a) = fb.upper(a) = (*i)[a] * r[a];
               double s = 0;
               bool have = true;
               for (auto j = fb.begin(); j != fb.end(); ++j) {
                  if (fd)
                     s += fd->getArrayData(a)(*j, k);
                  else {
                     int side = (*j)[a] == f.getBox().lower(a) ? 0 : (*j)[a] == f.getBox().upper(a) + 1 ? 1 : -1;
                     if (side < 0 || !od->getArrayData(a, side).getBox().contains(*j)) {
                        have = false;
                        break;
                     }
                     s += od->getArrayData(a, side)(*j, k);
                  }
               }
               if (!have) continue;
               if (cd)
                  cd->getArrayData(a)(*i, k) = s / fb.size();
               else
                  for (int side = 0; side < 2; side++)
                     if (cod->getArrayData(a, side).getBox().contains(*i))
                        cod->getArrayData(a, side)(*i, k) = s / fb.size();
            }
      }
   }
};
// linear interpolation (no limiting) and the slope-limited conservative one
class CellLinearRefine : public hier::RefineOperator
{
   bool cons_;

 public:
   explicit CellLinearRefine(bool cons)
       : hier::RefineOperator(cons ? "CONSERVATIVE_LINEAR_REFINE" : "LINEAR_REFINE"), cons_(cons)
   {
   }
   int getOperatorPriority() const override { return 0; }
   IntVector getStencilWidth(const Dimension& d) const override { return IntVector(d, 1); }
   void refine(hier::Patch& f, const hier::Patch& c, const int dst, const int src, const hier::BoxOverlap& o,
               const IntVector& r) const override
   {
      for (auto& b : dynamic_cast<const pdat::CellOverlap&>(o).getDestinationBoxContainer())
         refine(f, c, dst, src, b, r);
   }
   void refine(hier::Patch& f, const hier::Patch& c, const int dst, const int src, const Box& fb,
               const IntVector& r) const
   {
      auto fd = std::dynamic_pointer_cast<pdat::CellData<double> >(f.getPatchData(dst));
      auto cd = std::dynamic_pointer_cast<pdat::CellData<double> >(c.getPatchData(src));
      if (!fd || !cd) throw SamAbort("LINEAR_REFINE: not cell data");
      for (int k = 0; k < fd->getDepth(); k++)
         for (auto i = fb.begin(); i != fb.end(); ++i) {
            Index ci = Index::coarsen(*i, r);
            double off[3];
            for (int d = 0; d < NDIM; d++)
               off[d] = ((*i)[d] - ci[d] * r[d] + .5) / r[d] - .5;
            double v = 0;
            if (cons_) {
               v = (*cd)(pdat::CellIndex(ci), k);
               double v0 = v;
               for (int d = 0; d < NDIM; d++) {
                  Index p(ci), m(ci);
                  p[d]++;
                  m[d]--;
                  double a = (*cd)(pdat::CellIndex(p), k) - v0, b = v0 - (*cd)(pdat::CellIndex(m), k);
                  double s = 0;
                  if (a * b > 0) {
                     double mid = .5 * (a + b);
                     s = std::min(std::fabs(mid), 2 * std::min(std::fabs(a), std::fabs(b)));
                     if (mid < 0) s = -s;
                  }
                  v += s * off[d];
               }
            } else {
               for (int m = 0; m < (1 << NDIM); m++) {
                  Index p(ci);
                  double w = 1;
                  for (int d = 0; d < NDIM; d++) {
                     int s = off[d] < 0 ? -1 : 1;
                     double t = std::fabs(off[d]);
                     if (m >> d & 1) {
                        p[d] += s;
                        w *= t;
                     } else
                        w *= 1 - t;
                  }
                  if (w != 0) v += w * (*cd)(pdat::CellIndex(p), k);
               }
            }
            (*fd)(pdat::CellIndex(*i), k) = v;
         }
   }
};
}  // namespace geom
namespace hier
{
inline std::shared_ptr<RefineOperator> BaseGridGeometry::lookupRefineOperator(const std::shared_ptr<Variable>& v,
                                                                              const std::string& n)
{
   if (n == "NO_REFINE" || n == "") return std::shared_ptr<RefineOperator>();
   if (rops_.count(n)) return rops_[n];
   if (n == "CONSTANT_REFINE") return std::make_shared<pdat::CellConstantRefine>();
   if (n == "LINEAR_REFINE" || n == "CONSERVATIVE_LINEAR_REFINE")
      return std::make_shared<geom::CellLinearRefine>(n != "LINEAR_REFINE");
   throw SamAbort("unknown refine operator " + n);
}
inline std::shared_ptr<CoarsenOperator> BaseGridGeometry::lookupCoarsenOperator(const std::shared_ptr<Variable>& v,
                                                                                const std::string& n)
{
   if (n == "NO_COARSEN" || n == "") return std::shared_ptr<CoarsenOperator>();
   if (cops_.count(n)) return cops_[n];
   if (n == "CONSERVATIVE_COARSEN") {
      if (std::dynamic_pointer_cast<pdat::CellVariable<double> >(v))
         return std::make_shared<geom::CellConservativeCoarsen>();
      return std::make_shared<geom::SideConservativeCoarsen>();
   }
   throw SamAbort("unknown coarsen operator " + n);
}
inline PatchHierarchy::PatchHierarchy(const std::string& n, const std::shared_ptr<BaseGridGeometry>& g,
                                      const std::shared_ptr<tbox::Database>& db)
    : geom_(g), name_(n), maxl_(1)
{
   last() = this;
   tbox::RestartManager::getManager()->registerRestartItem(name_, this);
   if (db) {
      maxl_ = db->getIntegerWithDefault("max_levels", 1);
      if (db->isDatabase("ratio_to_coarser")) {
         auto r = db->getDatabase("ratio_to_coarser");
         for (int l = 1; l < maxl_; l++) {
            std::string k = "level_" + tbox::Utilities::intToString(l);
            if (r->keyExists(k)) {
               int a[3];
               r->getIntegerArray(k, a, NDIM);
               setRatioToCoarserLevel(IntVector(Dimension(NDIM), a), l);
            }
         }
      }
   }
}
inline PatchHierarchy::~PatchHierarchy()
{
   tbox::RestartManager::getManager()->unregisterRestartItem(name_);
   if (last() == this) last() = 0;
}
inline std::string restartKey(int id)
{
   auto& s = VariableDatabase::getDatabase()->slots[id];
   return s.var->getName() + "##" + (s.ctx ? s.ctx->getName() : std::string("none"));
}
// levels, boxes and the patch data registered for restart
inline void PatchHierarchy::putToRestart(const std::shared_ptr<tbox::Database>& db) const
{
   db->putInteger("levels", (int)levels_.size());
   for (size_t l = 0; l < levels_.size(); l++) {
      std::shared_ptr<tbox::Database> d = db->putDatabase("level_" + tbox::Utilities::intToString((int)l));
      std::vector<int> b;
      for (auto& p : levels_[l]->patches_)
         for (int k = 0; k < 2 * NDIM; k++)
            b.push_back(k < NDIM ? p->getBox().lower(k) : p->getBox().upper(k - NDIM));
      d->putIntegerVector("boxes", b);
      int n = 0;
      for (auto& p : levels_[l]->patches_) {
         std::shared_ptr<tbox::Database> q = d->putDatabase("patch_" + tbox::Utilities::intToString(n++));
         for (int id : PatchDataRestartManager::getManager()->ids_) {
            std::shared_ptr<PatchData> x = p->getPatchData(id);
            if (!x || x->isInt()) continue;
            std::vector<double> v;
            for (int k = 0; k < x->rawParts(); k++) {
               int lo[3], hi[3];
               const double* a = (const double*)x->rawPart(k, lo, hi);
               size_t m = x->depth();
               for (int i = 0; i < NDIM; i++)
                  m *= hi[i] - lo[i] + 1;
               v.insert(v.end(), a, a + m);
            }
            q->putDoubleVector(restartKey(id), v);
         }
      }
   }
}
inline void PatchHierarchy::initializeHierarchy()
{
   if (!tbox::RestartManager::getManager()->isFromRestart()) return;
   std::shared_ptr<tbox::Database> db = tbox::RestartManager::getManager()->getRootDatabase()->getDatabase(name_);
   levels_.clear();
   for (int l = 0; l < db->getInteger("levels") && l < maxl_; l++) {
      std::shared_ptr<tbox::Database> d = db->getDatabase("level_" + tbox::Utilities::intToString(l));
      std::vector<int> b = d->getIntegerVector("boxes");
      BoxContainer c;
      tbox::Dimension dim(NDIM);
      for (size_t k = 0; k < b.size(); k += 2 * NDIM) {
         Index lo(dim, 0), hi(dim, 0);
         for (int i = 0; i < NDIM; i++) {
            lo[i] = b[k + i];
            hi[i] = b[k + NDIM + i];
         }
         c.pushBack(Box(lo, hi, BlockId(0)));
      }
      makeNewPatchLevel(l, c);
      int n = 0;
      for (auto& p : levels_[l]->patches_) {
         std::shared_ptr<tbox::Database> q = d->getDatabase("patch_" + tbox::Utilities::intToString(n++));
         for (int id : PatchDataRestartManager::getManager()->ids_) {
            if (!q->keyExists(restartKey(id))) continue;
            if (!levels_[l]->checkAllocated(id)) levels_[l]->allocatePatchData(id);
            std::vector<double> v = q->getDoubleVector(restartKey(id));
            std::shared_ptr<PatchData> x = p->getPatchData(id);
            size_t o = 0;
            for (int k = 0; k < x->rawParts(); k++) {
               int lo[3], hi[3];
               double* a = (double*)x->rawPart(k, lo, hi);
               size_t m = x->depth();
               for (int i = 0; i < NDIM; i++)
                  m *= hi[i] - lo[i] + 1;
               if (o + m > v.size()) throw SamAbort("restart data of wrong size");
               std::copy(v.begin() + o, v.begin() + o + m, a);
               o += m;
            }
         }
      }
   }
}
}  // namespace hier
}  // namespace SAMRAI
#endif
