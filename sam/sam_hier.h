// Test double of SAMRAI's hier, pdat and geom packages (single process).
#ifndef sam_hier_h
#define sam_hier_h
#include "sam_tbox.h"
#ifndef NDIM
#error NDIM
#endif

namespace SAMRAI
{
namespace hier
{
using tbox::Dimension;
class Index;
class BlockId
{
 public:
   BlockId() {}
   explicit BlockId(unsigned) {}
   static const BlockId& zero()
   {
      static BlockId b;
      return b;
   }
   unsigned getBlockValue() const { return 0; }
   bool operator==(const BlockId&) const { return true; }
};
class LocalId
{
 public:
   int v;
   LocalId(int i = 0) : v(i) {}
   int getValue() const { return v; }
   bool operator==(const LocalId& o) const { return v == o.v; }
   bool operator<(const LocalId& o) const { return v < o.v; }
};
class GlobalId
{
 public:
   LocalId l;
   GlobalId(LocalId i = LocalId()) : l(i) {}
   const LocalId& getLocalId() const { return l; }
   int getOwnerRank() const { return 0; }
   bool operator<(const GlobalId& o) const { return l < o.l; }
   bool operator==(const GlobalId& o) const { return l == o.l; }
};
inline std::ostream& operator<<(std::ostream& o, const GlobalId& g) { return o << g.l.v; }
typedef GlobalId BoxId;

class IntVector
{
 protected:
   int v_[3];
   int dim_;

 public:
   typedef Dimension::dir_t dir_t;
   IntVector() : dim_(NDIM) { v_[0] = v_[1] = v_[2] = 0; }
   explicit IntVector(const Dimension& d, int val = INT_MAX) : dim_(d.getValue())
   {
      for (int i = 0; i < 3; i++)
         v_[i] = i < dim_ ? val : 0;
   }
   IntVector(const Dimension& d, const int a[]) : dim_(d.getValue())
   {
      for (int i = 0; i < 3; i++)
         v_[i] = i < dim_ ? a[i] : 0;
   }
   explicit IntVector(const std::vector<int>& a) : dim_((int)a.size())
   {
      for (int i = 0; i < 3; i++)
         v_[i] = i < dim_ ? a[i] : 0;
   }
   explicit IntVector(const Index& i);
   int& operator[](unsigned i) { assert((int)i < dim_); return v_[i]; }
   const int& operator[](unsigned i) const { assert((int)i < dim_); return v_[i]; }
   int& operator()(unsigned i) { assert((int)i < dim_); return v_[i]; }
   const int& operator()(unsigned i) const { assert((int)i < dim_); return v_[i]; }
   const int* raw() const { return v_; }
   Dimension getDim() const { return Dimension(dim_); }
   unsigned getNumBlocks() const { return 1; }
#define SAM_OP(op)                                                             \
   IntVector& operator op##=(const IntVector & o)                              \
   {                                                                           \
      for (int i = 0; i < dim_; i++)                                           \
         v_[i] op## = o.v_[i];                                                 \
      return *this;                                                            \
   }                                                                           \
   IntVector operator op(const IntVector& o) const                             \
   {                                                                           \
      IntVector r(*this);                                                      \
      r op## = o;                                                              \
      return r;                                                                \
   }                                                                           \
   IntVector& operator op##=(int s)                                            \
   {                                                                           \
      for (int i = 0; i < dim_; i++)                                           \
         v_[i] op## = s;                                                       \
      return *this;                                                            \
   }                                                                           \
   IntVector operator op(int s) const                                          \
   {                                                                           \
      IntVector r(*this);                                                      \
      r op## = s;                                                              \
      return r;                                                                \
   }
   SAM_OP(+)
   SAM_OP(-)
   SAM_OP(*)
   SAM_OP(/)
#undef SAM_OP
   IntVector operator-() const { return IntVector(*this) * (-1); }
   bool operator==(const IntVector& o) const
   {
      for (int i = 0; i < dim_; i++)
         if (v_[i] != o.v_[i]) return false;
      return true;
   }
   bool operator!=(const IntVector& o) const { return !(*this == o); }
   bool operator==(int s) const
   {
      for (int i = 0; i < dim_; i++)
         if (v_[i] != s) return false;
      return true;
   }
   bool operator!=(int s) const { return !(*this == s); }
#define SAM_CMP(op)                              \
   bool operator op(const IntVector& o) const    \
   {                                             \
      for (int i = 0; i < dim_; i++)             \
         if (!(v_[i] op o.v_[i])) return false;  \
      return true;                               \
   }
   SAM_CMP(<)
   SAM_CMP(<=)
   SAM_CMP(>)
   SAM_CMP(>=)
#undef SAM_CMP
   int max() const { return *std::max_element(v_, v_ + dim_); }
   int min() const { return *std::min_element(v_, v_ + dim_); }
   void max(const IntVector& o)
   {
      for (int i = 0; i < dim_; i++)
         v_[i] = std::max(v_[i], o.v_[i]);
   }
   void min(const IntVector& o)
   {
      for (int i = 0; i < dim_; i++)
         v_[i] = std::min(v_[i], o.v_[i]);
   }
   static IntVector max(const IntVector& a, const IntVector& b)
   {
      IntVector r(a);
      r.max(b);
      return r;
   }
   static IntVector min(const IntVector& a, const IntVector& b)
   {
      IntVector r(a);
      r.min(b);
      return r;
   }
   int getProduct() const
   {
      int p = 1;
      for (int i = 0; i < dim_; i++)
         p *= v_[i];
      return p;
   }
   static const IntVector& getZero(const Dimension& d)
   {
      static IntVector z(Dimension(2), 0), z3(Dimension(3), 0);
      return d.getValue() == 2 ? z : z3;
   }
   static const IntVector& getOne(const Dimension& d)
   {
      static IntVector z(Dimension(2), 1), z3(Dimension(3), 1);
      return d.getValue() == 2 ? z : z3;
   }
};
inline std::ostream& operator<<(std::ostream& o, const IntVector& v)
{
   o << "(";
   for (int i = 0; i < v.getDim().getValue(); i++)
      o << (i ? "," : "") << v[i];
   return o << ")";
}
class Index : public IntVector
{
 public:
   Index() {}
   explicit Index(const Dimension& d, int val = 0) : IntVector(d, val) {}
   Index(int i, int j) : IntVector(Dimension(2), 0) { v_[0] = i; v_[1] = j; }
   Index(int i, int j, int k) : IntVector(Dimension(3), 0) { v_[0] = i; v_[1] = j; v_[2] = k; }
   Index(const Dimension& d, const int a[]) : IntVector(d, a) {}
   explicit Index(const IntVector& v) : IntVector(v) {}
   Index operator+(const IntVector& o) const { return Index(IntVector::operator+(o)); }
   Index operator-(const IntVector& o) const { return Index(IntVector::operator-(o)); }
   Index operator*(const IntVector& o) const { return Index(IntVector::operator*(o)); }
   Index operator+(int s) const { return Index(IntVector::operator+(s)); }
   Index operator-(int s) const { return Index(IntVector::operator-(s)); }
   Index& operator=(const IntVector& v) { IntVector::operator=(v); return *this; }
   static Index min(const Index& a, const Index& b) { return Index(IntVector::min(a, b)); }
   static Index max(const Index& a, const Index& b) { return Index(IntVector::max(a, b)); }
   static int fdiv(int a, int r) { return a >= 0 ? a / r : -((-a + r - 1) / r); }
   static Index coarsen(const Index& a, const IntVector& r)
   {
      Index c(a);
      for (int i = 0; i < a.dim_; i++)
         c[i] = fdiv(a[i], r[i]);
      return c;
   }
   Index& coarsen(const IntVector& r) { return *this = coarsen(*this, r); }
};
inline IntVector::IntVector(const Index& i) : IntVector(static_cast<const IntVector&>(i)) {}

class Box
{
 public:
   class iterator
   {
      Index i_;
      const Box* b_;
      Index lo_, hi_;

    public:
      iterator(const Box& b, bool begin);
      const Index& operator*() const { return i_; }
      const Index* operator->() const { return &i_; }
      iterator& operator++();
      iterator operator++(int)
      {
         iterator t(*this);
         ++*this;
         return t;
      }
      bool operator==(const iterator& o) const { return i_ == o.i_; }
      bool operator!=(const iterator& o) const { return !(i_ == o.i_); }
   };

 private:
   Index lo_, hi_;
   LocalId id_;

 public:
   explicit Box(const Dimension& d) : lo_(d, 0), hi_(d, -1) {}
   Box(const Index& l, const Index& h, const BlockId& = BlockId::zero()) : lo_(l), hi_(h) {}
   Box(const Box& b, const LocalId& i, int) : Box(b) { id_ = i; }
   Box(const Index& l, const Index& h, const BlockId&, const LocalId& i, int) : lo_(l), hi_(h), id_(i) {}
   Box(const tbox::DatabaseBox& b) : lo_(Dimension(b.d_dim), b.d_lo), hi_(Dimension(b.d_dim), b.d_hi) {}
   Index& lower() { return lo_; }
   Index& upper() { return hi_; }
   const Index& lower() const { return lo_; }
   const Index& upper() const { return hi_; }
   int& lower(unsigned d) { return lo_[d]; }
   int& upper(unsigned d) { return hi_[d]; }
   const int& lower(unsigned d) const { return lo_[d]; }
   const int& upper(unsigned d) const { return hi_[d]; }
   void setLower(const Index& i) { lo_ = i; }
   void setUpper(const Index& i) { hi_ = i; }
   void setLower(unsigned d, int i) { lo_[d] = i; }
   void setUpper(unsigned d, int i) { hi_[d] = i; }
   const LocalId& getLocalId() const { return id_; }
   void setLocalId(int i) { id_ = LocalId(i); }
   GlobalId getGlobalId() const { return GlobalId(id_); }
   GlobalId getBoxId() const { return GlobalId(id_); }
   int getOwnerRank() const { return 0; }
   const BlockId& getBlockId() const { return BlockId::zero(); }
   void setBlockId(const BlockId&) {}
   Dimension getDim() const { return lo_.getDim(); }
   int dim() const { return lo_.getDim().getValue(); }
   bool empty() const
   {
      for (int i = 0; i < dim(); i++)
         if (hi_[i] < lo_[i]) return true;
      return false;
   }
   bool isEmpty() const { return empty(); }
   void setEmpty()
   {
      lo_ = Index(getDim(), 0);
      hi_ = Index(getDim(), -1);
   }
   int numberCells(unsigned d) const { return empty() ? 0 : hi_[d] - lo_[d] + 1; }
   IntVector numberCells() const
   {
      IntVector n(getDim(), 0);
      for (int i = 0; i < dim(); i++)
         n[i] = numberCells(i);
      return n;
   }
   size_t size() const
   {
      size_t s = 1;
      for (int i = 0; i < dim(); i++)
         s *= numberCells(i);
      return empty() ? 0 : s;
   }
   size_t offset(const Index& p) const
   {
      size_t o = 0;
      for (int i = dim() - 1; i >= 0; i--)
         o = o * numberCells(i) + (p[i] - lo_[i]);
      return o;
   }
   bool contains(const Index& p) const
   {
      for (int i = 0; i < dim(); i++)
         if (p[i] < lo_[i] || p[i] > hi_[i]) return false;
      return true;
   }
   bool contains(const Box& b) const { return b.empty() || (contains(b.lo_) && contains(b.hi_)); }
   bool operator==(const Box& o) const { return (lo_ == o.lo_ && hi_ == o.hi_) || (empty() && o.empty()); }
   bool operator!=(const Box& o) const { return !(*this == o); }
   bool isSpatiallyEqual(const Box& o) const { return *this == o; }
   Box operator*(const Box& o) const
   {
      Box r(*this);
      for (int i = 0; i < dim(); i++) {
         r.lo_[i] = std::max(lo_[i], o.lo_[i]);
         r.hi_[i] = std::min(hi_[i], o.hi_[i]);
      }
      return r;
   }
   bool intersects(const Box& o) const { return !(*this * o).empty(); }
   Box& operator*=(const Box& o) { return *this = *this * o; }
   void intersect(const Box& o, Box& r) const { r = *this * o; }
   Box operator+(const Box& o) const
   {
      if (empty()) return o;
      if (o.empty()) return *this;
      Box r(*this);
      for (int i = 0; i < dim(); i++) {
         r.lo_[i] = std::min(lo_[i], o.lo_[i]);
         r.hi_[i] = std::max(hi_[i], o.hi_[i]);
      }
      return r;
   }
   Box& operator+=(const Box& o) { return *this = *this + o; }
   Box& grow(const IntVector& g)
   {
      for (int i = 0; i < dim(); i++) {
         lo_[i] -= g[i];
         hi_[i] += g[i];
      }
      return *this;
   }
   void grow(unsigned d, int g)
   {
      lo_[d] -= g;
      hi_[d] += g;
   }
   void growUpper(unsigned d, int g) { hi_[d] += g; }
   void growLower(unsigned d, int g) { lo_[d] -= g; }
   void growUpper(const IntVector& g)
   {
      for (int i = 0; i < dim(); i++)
         hi_[i] += g[i];
   }
   static Box grow(const Box& b, const IntVector& g)
   {
      Box r(b);
      r.grow(g);
      return r;
   }
   Box& shift(const IntVector& s)
   {
      for (int i = 0; i < dim(); i++) {
         lo_[i] += s[i];
         hi_[i] += s[i];
      }
      return *this;
   }
   void shift(unsigned d, int s)
   {
      lo_[d] += s;
      hi_[d] += s;
   }
   static Box shift(const Box& b, const IntVector& s)
   {
      Box r(b);
      r.shift(s);
      return r;
   }
   Box& coarsen(const IntVector& r)
   {
      lo_.coarsen(r);
      hi_.coarsen(r);
      return *this;
   }
   Box& refine(const IntVector& r)
   {
      for (int i = 0; i < dim(); i++) {
         lo_[i] = lo_[i] * r[i];
         hi_[i] = hi_[i] * r[i] + r[i] - 1;
      }
      return *this;
   }
   static Box coarsen(const Box& b, const IntVector& r)
   {
      Box c(b);
      c.coarsen(r);
      return c;
   }
   static Box refine(const Box& b, const IntVector& r)
   {
      Box c(b);
      c.refine(r);
      return c;
   }
   unsigned longestDirection() const
   {
      unsigned m = 0;
      for (int i = 1; i < dim(); i++)
         if (numberCells(i) > numberCells(m)) m = i;
      return m;
   }
   iterator begin() const { return iterator(*this, true); }
   iterator end() const { return iterator(*this, false); }
};
inline Box::iterator::iterator(const Box& b, bool begin) : i_(b.lower()), b_(0), lo_(b.lower()), hi_(b.upper())
{
   if (!begin || b.empty()) i_[b.dim() - 1] = b.empty() ? b.lower(b.dim() - 1) : b.upper(b.dim() - 1) + 1;
}
inline Box::iterator& Box::iterator::operator++()
{
   int d = lo_.getDim().getValue();
   for (int k = 0; k < d; k++) {
      if (++i_[k] <= hi_[k] || k == d - 1) return *this;
      i_[k] = lo_[k];
   }
   return *this;
}
inline std::ostream& operator<<(std::ostream& o, const Box& b)
{
   return o << "[" << static_cast<const IntVector&>(b.lower()) << "," << static_cast<const IntVector&>(b.upper())
            << "]";
}
class BoxContainer
{
   std::list<Box> b_;

 public:
   void print(std::ostream& = tbox::plog) const {}
   bool boxesIntersect() const
   {
      for (auto i = b_.begin(); i != b_.end(); ++i)
         for (auto j = std::next(i); j != b_.end(); ++j)
            if (!((*i) * (*j)).empty()) return true;
      return false;
   }
   typedef std::list<Box>::iterator iterator;
   typedef std::list<Box>::const_iterator const_iterator;
   BoxContainer() {}
   explicit BoxContainer(const Box& b) { b_.push_back(b); }
   explicit BoxContainer(const std::vector<tbox::DatabaseBox>& v)
   {
      for (size_t i = 0; i < v.size(); i++)
         b_.push_back(Box(v[i]));
   }
   iterator begin() { return b_.begin(); }
   iterator end() { return b_.end(); }
   const_iterator begin() const { return b_.begin(); }
   const_iterator end() const { return b_.end(); }
   void pushBack(const Box& b) { b_.push_back(b); }
   void push_back(const Box& b) { b_.push_back(b); }
   void insert(const Box& b) { b_.push_back(b); }
   int size() const { return (int)b_.size(); }
   bool empty() const { return b_.empty(); }
   bool isEmpty() const { return b_.empty(); }
   void clear() { b_.clear(); }
   const Box& front() const { return b_.front(); }
   const Box& back() const { return b_.back(); }
   Box& front() { return b_.front(); }
   Box getBoundingBox() const
   {
      Box r(Dimension(NDIM));
      for (const_iterator i = b_.begin(); i != b_.end(); ++i)
         r += *i;
      return r;
   }
   size_t getTotalSizeOfBoxes() const
   {
      size_t s = 0;
      for (const_iterator i = b_.begin(); i != b_.end(); ++i)
         s += i->size();
      return s;
   }
   void intersectBoxes(const Box& t)
   {
      for (iterator i = b_.begin(); i != b_.end();) {
         *i *= t;
         if (i->empty())
            i = b_.erase(i);
         else
            ++i;
      }
   }
   void intersectBoxes(const BoxContainer& t)
   {
      std::list<Box> r;
      for (iterator i = b_.begin(); i != b_.end(); ++i)
         for (const_iterator j = t.begin(); j != t.end(); ++j) {
            Box x = *i * *j;
            if (!x.empty()) r.push_back(x);
         }
      b_ = r;
   }
   static void sub(const Box& a, const Box& t, std::list<Box>& out)
   {
      Box x = a * t;
      if (x.empty()) {
         out.push_back(a);
         return;
      }
      Box r(a);
      for (int d = 0; d < a.dim(); d++) {
         if (r.lower(d) < x.lower(d)) {
            Box p(r);
            p.upper(d) = x.lower(d) - 1;
            out.push_back(p);
            r.lower(d) = x.lower(d);
         }
         if (r.upper(d) > x.upper(d)) {
            Box p(r);
            p.lower(d) = x.upper(d) + 1;
            out.push_back(p);
            r.upper(d) = x.upper(d);
         }
      }
   }
   void removeIntersections(const Box& t)
   {
      std::list<Box> r;
      for (iterator i = b_.begin(); i != b_.end(); ++i)
         sub(*i, t, r);
      b_ = r;
   }
   void removeIntersections(const BoxContainer& t)
   {
      for (const_iterator j = t.begin(); j != t.end(); ++j)
         removeIntersections(*j);
   }
   void grow(const IntVector& g)
   {
      for (iterator i = b_.begin(); i != b_.end(); ++i)
         i->grow(g);
   }
   void coarsen(const IntVector& g)
   {
      for (iterator i = b_.begin(); i != b_.end(); ++i)
         i->coarsen(g);
   }
   void refine(const IntVector& g)
   {
      for (iterator i = b_.begin(); i != b_.end(); ++i)
         i->refine(g);
   }
   bool contains(const Index& p) const
   {
      for (const_iterator i = b_.begin(); i != b_.end(); ++i)
         if (i->contains(p)) return true;
      return false;
   }
   void coalesce() {}
   void simplify() {}
};
class BaseGridGeometry;
class BoxLevel
{
 public:
   BoxContainer d_b;
   IntVector d_ratio;
   BoxLevel() : d_ratio(Dimension(NDIM), 1) {}
   template <class G>
   BoxLevel(const IntVector& r, const std::shared_ptr<G>&) : d_ratio(r)
   {
   }
   void addBox(const Box& b) { d_b.pushBack(b); }
   tbox::SAMRAI_MPI getMPI() const { return tbox::SAMRAI_MPI(); }
   const BoxContainer& getBoxes() const { return d_b; }
};
class BoundaryBox
{
   Box b_;
   int type_, loc_;

 public:
   BoundaryBox(const Box& b, int type, int loc) : b_(b), type_(type), loc_(loc) {}
   explicit BoundaryBox(const Dimension& d) : b_(d), type_(-1), loc_(-1) {}
   const Box& getBox() const { return b_; }
   int getBoundaryType() const { return type_; }
   int getLocationIndex() const { return loc_; }
   Dimension getDim() const { return b_.getDim(); }
   enum MultiblockSingularity { IS_NOT, CAN_BE };
   int getMultiblockSingularity() const { return 0; }
   void setIsMultiblockSingularity(bool) {}
};
class BoundaryBoxUtils
{
   const BoundaryBox& bb;

 public:
   explicit BoundaryBoxUtils(const BoundaryBox& b) : bb(b) {}
   const IntVector getOutwardShift() const
   {
      IntVector s(bb.getDim(), 0);
      if (bb.getBoundaryType() == 1) s[bb.getLocationIndex() / 2] = bb.getLocationIndex() % 2 ? 1 : -1;
      return s;
   }
   // only for codimension 1: grow outward until the thickness is |ghosts|
   void stretchBoxToGhostWidth(Box& b, const IntVector& g) const
   {
      b = bb.getBox();
      if (bb.getBoundaryType() != 1) throw SamAbort("stretchBoxToGhostWidth");
      int d = bb.getLocationIndex() / 2;
      if (bb.getLocationIndex() % 2)
         b.upper(d) = b.lower(d) + g[d] - 1;
      else
         b.lower(d) = b.upper(d) - g[d] + 1;
      for (int i = 0; i < b.dim(); i++)
         if (i != d) {
         }
   }
   unsigned normalDir() const { return bb.getLocationIndex() / 2; }
   // side indices of the surface between the box and the patch interior
   Box getSurfaceBoxFromBoundaryBox() const
   {
      if (bb.getBoundaryType() != 1) throw SamAbort("getSurfaceBoxFromBoundaryBox");
      Box b(bb.getBox());
      int d = bb.getLocationIndex() / 2;
      if (bb.getLocationIndex() % 2)
         b.upper(d) = b.lower(d);
      else
         b.lower(d) = b.upper(d) = b.upper(d) + 1;
      return b;
   }
   // Cut the box so that it does not extend past limit_box in the directions
   // parallel to the boundary.
   BoundaryBox trimBoundaryBox(const Box& limit) const
   {
      Box b = bb.getBox();
      int nd = bb.getBoundaryType() == 1 ? bb.getLocationIndex() / 2 : -1;
      for (int i = 0; i < b.dim(); i++)
         if (i != nd) {
            bool inside = !(b.upper(i) < limit.lower(i) || b.lower(i) > limit.upper(i));
            if (inside) {
               b.lower(i) = std::max(b.lower(i), limit.lower(i));
               b.upper(i) = std::min(b.upper(i), limit.upper(i));
            }
         }
      return BoundaryBox(b, bb.getBoundaryType(), bb.getLocationIndex());
   }
};

class PatchGeometry
{
 public:
   IntVector ratio_;
   bool touch_[3][2];
   std::vector<std::vector<BoundaryBox> > bdry_;  // codim 1..3
   PatchGeometry(const IntVector& r) : ratio_(r), bdry_(3) { memset(touch_, 0, sizeof touch_); }
   virtual ~PatchGeometry() {}
   const IntVector& getRatio() const { return ratio_; }
   bool getTouchesRegularBoundary(int d, int s) const { return touch_[d][s]; }
   bool getTouchesRegularBoundary() const
   {
      for (int d = 0; d < NDIM; d++)
         if (touch_[d][0] || touch_[d][1]) return true;
      return false;
   }
   const std::vector<BoundaryBox>& getCodimensionBoundaries(int c) const { return bdry_[c - 1]; }
   const std::vector<BoundaryBox>& getEdgeBoundaries() const { return bdry_[NDIM - 2]; }
   const std::vector<BoundaryBox>& getNodeBoundaries() const { return bdry_[NDIM - 1]; }
   const std::vector<BoundaryBox>& getFaceBoundaries() const { return bdry_[NDIM - 3]; }
   bool intersectsPhysicalBoundary() const { return getTouchesRegularBoundary(); }
   // ghost region next to boundary box `bb`, inside the fill width
   Box getBoundaryFillBox(const BoundaryBox& bb, const Box& patch_box, const IntVector& gcw) const
   {
      Box b = bb.getBox();
      Box g = Box::grow(patch_box, gcw);
      // the boundary box is one cell wide in each direction normal to the boundary
      for (int d = 0; d < b.dim(); d++) {
         if (b.upper(d) < patch_box.lower(d)) {
            b.lower(d) = g.lower(d);
         } else if (b.lower(d) > patch_box.upper(d)) {
            b.upper(d) = g.upper(d);
         }
      }
      return b * g;
   }
};
class BaseGridGeometry;

// ------------------------------------------------------------- patch data
class BoxOverlap
{
 public:
   virtual ~BoxOverlap() {}
   virtual bool isOverlapEmpty() const { return false; }
};
class PatchData
{
 public:
   Box box_, gbox_;
   IntVector g_;
   double time_;
   PatchData(const Box& b, const IntVector& g) : box_(b), gbox_(Box::grow(b, g)), g_(g), time_(0) {}
   virtual ~PatchData() {}
   const Box& getBox() const { return box_; }
   const Box& getGhostBox() const { return gbox_; }
   const IntVector& getGhostCellWidth() const { return g_; }
   double getTime() const { return time_; }
   void setTime(double t) { time_ = t; }
   Dimension getDim() const { return box_.getDim(); }
   virtual void copy(const PatchData&) = 0;
   // copy of all values of src, shifted, that lie in the given cell region
   virtual void copyRegion(const PatchData& src, const Box& cells, const IntVector& shift) = 0;
   virtual std::shared_ptr<PatchData> like(const Box& b, const IntVector& g) const = 0;
   virtual const char* centering() const = 0;
   virtual int depth() const = 0;
   virtual int guards() const = 0;       // number of damaged guard words
   // raw access for the checks
   virtual int rawParts() const = 0;
   virtual void* rawPart(int part, int* lo, int* hi) = 0;
   virtual bool isInt() const = 0;
};
class Variable
{
   std::string name_;
   static int& counter()
   {
      static int c = 0;
      return c;
   }
   int id_;

 public:
   Variable(const std::string& n) : name_(n), id_(counter()++) {}
   virtual ~Variable() {}
   const std::string& getName() const { return name_; }
   int getInstanceIdentifier() const { return id_; }
   virtual Dimension getDim() const { return Dimension(NDIM); }
   virtual std::shared_ptr<PatchData> make(const Box& b, const IntVector& g) const = 0;
   virtual int getDepth() const { return 1; }
};
class VariableContext
{
   std::string n_;

 public:
   VariableContext(const std::string& n) : n_(n) {}
   const std::string& getName() const { return n_; }
};
class ComponentSelector
{
   std::set<int> s_;

 public:
   ComponentSelector(bool = false) {}
   void setFlag(int i) { s_.insert(i); }
   void clrFlag(int i) { s_.erase(i); }
   bool isSet(int i) const { return s_.count(i) > 0; }
   void clrAllFlags() { s_.clear(); }
   const std::set<int>& all() const { return s_; }
   ComponentSelector& operator|=(const ComponentSelector& o)
   {
      s_.insert(o.s_.begin(), o.s_.end());
      return *this;
   }
};
class PatchDataFactory
{
 public:
   std::shared_ptr<Variable> v_;
   IntVector g_;
   const IntVector& getGhostCellWidth() const { return g_; }
};
class PatchDescriptor
{
 public:
   std::shared_ptr<PatchDataFactory> getPatchDataFactory(int id) const;
   int getMaxNumberRegisteredComponents() const;
   std::string mapIndexToName(int id) const;
   IntVector getMaxGhostWidth(const Dimension&) const;
};
class VariableDatabase
{
 public:
   void printClassData(std::ostream& = tbox::plog, bool = true) const {}
   struct Slot {
      std::shared_ptr<Variable> var;
      std::shared_ptr<VariableContext> ctx;
      IntVector g;
      bool live;
   };
   std::vector<Slot> slots;
   std::map<std::string, std::shared_ptr<VariableContext> > ctx_;
   std::map<std::string, std::shared_ptr<Variable> > vars_;
   static VariableDatabase* getDatabase()
   {
      static VariableDatabase v;
      return &v;
   }
   void reset()
   {
      slots.clear();
      ctx_.clear();
      vars_.clear();
   }
   std::shared_ptr<VariableContext> getContext(const std::string& n)
   {
      if (!ctx_[n]) ctx_[n].reset(new VariableContext(n));
      return ctx_[n];
   }
   bool checkContextExists(const std::string& n) { return ctx_.count(n) > 0; }
   int add(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c, const IntVector& g)
   {
      Slot s = {v, c, g, true};
      slots.push_back(s);
      vars_[v->getName()] = v;
      return (int)slots.size() - 1;
   }
   int registerVariableAndContext(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c,
                                  const IntVector& g)
   {
      assert(v && c);
      for (size_t i = 0; i < slots.size(); i++)
         if (slots[i].live && slots[i].var == v && slots[i].ctx == c) {
            if (!(slots[i].g == g)) throw SamAbort("variable registered twice with different ghost widths");
            return (int)i;
         }
      return add(v, c, g);
   }
   int registerInternalSAMRAIVariable(const std::shared_ptr<Variable>& v, const IntVector& g)
   {
      for (size_t i = 0; i < slots.size(); i++)
         if (slots[i].live && slots[i].var == v && !slots[i].ctx) return (int)i;
      return add(v, std::shared_ptr<VariableContext>(), g);
   }
   void addVariable(const std::shared_ptr<Variable>& v) { vars_[v->getName()] = v; }
   int registerClonedPatchDataIndex(const std::shared_ptr<Variable>& v, int id)
   {
      return add(v, std::shared_ptr<VariableContext>(), slots[id].g);
   }
   void removePatchDataIndex(int i)
   {
      if (i >= 0 && i < (int)slots.size()) slots[i].live = false;
   }
   void removeInternalSAMRAIVariablePatchDataIndex(int i) { removePatchDataIndex(i); }
   int mapVariableAndContextToIndex(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c)
   {
      for (size_t i = 0; i < slots.size(); i++)
         if (slots[i].live && slots[i].var == v && slots[i].ctx == c) return (int)i;
      return -1;
   }
   bool mapIndexToVariable(int id, std::shared_ptr<Variable>& v)
   {
      if (id < 0 || id >= (int)slots.size() || !slots[id].live) return false;
      v = slots[id].var;
      return true;
   }
   bool mapIndexToVariableAndContext(int id, std::shared_ptr<Variable>& v, std::shared_ptr<VariableContext>& c)
   {
      if (!mapIndexToVariable(id, v)) return false;
      c = slots[id].ctx;
      return bool(c);
   }
   std::shared_ptr<Variable> getVariable(const std::string& n)
   {
      return vars_.count(n) ? vars_[n] : std::shared_ptr<Variable>();
   }
   bool checkVariableExists(const std::string& n) { return vars_.count(n) > 0; }
   void registerPatchDataForRestart(int) {}
   std::shared_ptr<PatchDescriptor> getPatchDescriptor()
   {
      static std::shared_ptr<PatchDescriptor> p(new PatchDescriptor());
      return p;
   }
};
inline std::shared_ptr<PatchDataFactory> PatchDescriptor::getPatchDataFactory(int id) const
{
   std::shared_ptr<PatchDataFactory> f(new PatchDataFactory());
   f->v_ = VariableDatabase::getDatabase()->slots[id].var;
   f->g_ = VariableDatabase::getDatabase()->slots[id].g;
   return f;
}
inline int PatchDescriptor::getMaxNumberRegisteredComponents() const
{
   return (int)VariableDatabase::getDatabase()->slots.size();
}
inline std::string PatchDescriptor::mapIndexToName(int id) const
{
   return VariableDatabase::getDatabase()->slots[id].var->getName();
}
inline IntVector PatchDescriptor::getMaxGhostWidth(const Dimension& d) const
{
   IntVector g(d, 0);
   for (auto& s : VariableDatabase::getDatabase()->slots)
      g.max(s.g);
   return g;
}
class PatchDataRestartManager
{
 public:
   std::set<int> ids_;
   static PatchDataRestartManager* getManager()
   {
      static PatchDataRestartManager m;
      return &m;
   }
   void registerPatchDataForRestart(int i) { ids_.insert(i); }
   void unregisterPatchDataForRestart(int i) { ids_.erase(i); }
   void clear() { ids_.clear(); }
};

class Patch
{
   Box box_;
   int level_, num_;
   std::map<int, std::shared_ptr<PatchData> > data_;
   std::shared_ptr<PatchGeometry> geom_;
   bool inh_;

 public:
   Patch(const Box& b, int level, int num, const std::shared_ptr<PatchGeometry>& g, bool inh)
       : box_(b), level_(level), num_(num), geom_(g), inh_(inh)
   {
      box_.setLocalId(num);
   }
   const Box& getBox() const { return box_; }
   Dimension getDim() const { return box_.getDim(); }
   LocalId getLocalId() const { return LocalId(num_); }
   GlobalId getGlobalId() const { return GlobalId(LocalId(num_)); }
   int getPatchNumber() const { return num_; }
   int getPatchLevelNumber() const { return level_; }
   bool inHierarchy() const { return inh_; }
   std::shared_ptr<PatchGeometry> getPatchGeometry() const { return geom_; }
   std::shared_ptr<PatchDescriptor> getPatchDescriptor() const
   {
      return VariableDatabase::getDatabase()->getPatchDescriptor();
   }
   bool checkAllocated(int id) const { return data_.count(id) && data_.find(id)->second; }
   void allocatePatchData(int id, double t = 0.)
   {
      VariableDatabase* v = VariableDatabase::getDatabase();
      if (id < 0 || id >= (int)v->slots.size()) throw SamAbort("allocatePatchData: bad id");
      data_[id] = v->slots[id].var->make(box_, v->slots[id].g);
      data_[id]->setTime(t);
   }
   void allocatePatchData(const ComponentSelector& c, double t = 0.)
   {
      for (int i : c.all())
         allocatePatchData(i, t);
   }
   void deallocatePatchData(int id) { data_.erase(id); }
   void deallocatePatchData(const ComponentSelector& c)
   {
      for (int i : c.all())
         deallocatePatchData(i);
   }
   std::shared_ptr<PatchData> getPatchData(int id) const
   {
      auto i = data_.find(id);
      return i == data_.end() ? std::shared_ptr<PatchData>() : i->second;
   }
   std::shared_ptr<PatchData> getPatchData(const std::shared_ptr<Variable>& v,
                                           const std::shared_ptr<VariableContext>& c) const
   {
      return getPatchData(VariableDatabase::getDatabase()->mapVariableAndContextToIndex(v, c));
   }
   void setPatchData(int id, const std::shared_ptr<PatchData>& d) { data_[id] = d; }
   void setTime(double t, int id) { data_[id]->setTime(t); }
   void setTime(double t)
   {
      for (auto& d : data_)
         d.second->setTime(t);
   }
   std::map<int, std::shared_ptr<PatchData> >& all() { return data_; }
};

class RefineOperator
{
   std::string n_;

 public:
   explicit RefineOperator(const std::string& n) : n_(n) {}
   virtual ~RefineOperator() {}
   const std::string& getOperatorName() const { return n_; }
   virtual int getOperatorPriority() const = 0;
   virtual IntVector getStencilWidth(const Dimension& d) const = 0;
   virtual void refine(Patch& fine, const Patch& coarse, const int dst, const int src, const BoxOverlap& o,
                       const IntVector& ratio) const = 0;
};
class CoarsenOperator
{
   std::string n_;

 public:
   explicit CoarsenOperator(const std::string& n) : n_(n) {}
   virtual ~CoarsenOperator() {}
   const std::string& getOperatorName() const { return n_; }
   virtual int getOperatorPriority() const = 0;
   virtual IntVector getStencilWidth(const Dimension& d) const = 0;
   virtual void coarsen(Patch& coarse, const Patch& fine, const int dst, const int src, const Box& cbox,
                        const IntVector& ratio) const = 0;
};
class TransferOperatorRegistry
{
};

class BaseGridGeometry
{
 public:
   virtual ~BaseGridGeometry() {}
   std::map<std::string, std::shared_ptr<RefineOperator> > rops_;
   std::map<std::string, std::shared_ptr<CoarsenOperator> > cops_;
   // user operators take precedence; built-in ones are found by a hook
   void addRefineOperator(const char*, const std::shared_ptr<RefineOperator>& o) { rops_[o->getOperatorName()] = o; }
   void addCoarsenOperator(const char*, const std::shared_ptr<CoarsenOperator>& o) { cops_[o->getOperatorName()] = o; }
   void addRefineOperator(const std::string&, const std::shared_ptr<RefineOperator>& o)
   {
      rops_[o->getOperatorName()] = o;
   }
   void addCoarsenOperator(const std::string&, const std::shared_ptr<CoarsenOperator>& o)
   {
      cops_[o->getOperatorName()] = o;
   }
   std::shared_ptr<RefineOperator> lookupRefineOperator(const std::shared_ptr<Variable>& v, const std::string& n);
   std::shared_ptr<CoarsenOperator> lookupCoarsenOperator(const std::shared_ptr<Variable>& v, const std::string& n);
   Box domain_;       // level 0
   IntVector periodic_;  // 0 or the period (in level-0 cells)
   BaseGridGeometry(const Box& d, const IntVector& p) : domain_(d), periodic_(p) {}
   BoxContainer phys_;
   const BoxContainer& getPhysicalDomain() const { return phys_; }
   bool getDomainIsSingleBox() const { return true; }
   bool getDomainIsSingleBox(const BlockId&) const { return true; }
   IntVector getPeriodicShift(const IntVector& r = IntVector(Dimension(NDIM), 1)) const
   {
      IntVector s(periodic_);
      for (int d = 0; d < NDIM; d++)
         s[d] *= r[d];
      return s;
   }
   Dimension getDim() const { return domain_.getDim(); }
   size_t getNumberBlocks() const { return 1; }
   virtual std::shared_ptr<PatchGeometry> makeGeom(const Box& b, const IntVector& ratio) const = 0;
};

class PatchLevel
{
 public:
   class Iterator
   {
      const std::vector<std::shared_ptr<Patch> >* v_;
      size_t i_;

    public:
      Iterator(const std::vector<std::shared_ptr<Patch> >* v, size_t i) : v_(v), i_(i) {}
      const std::shared_ptr<Patch>& operator*() const { return (*v_)[i_]; }
      const std::shared_ptr<Patch>& operator->() const { return (*v_)[i_]; }
      Iterator& operator++()
      {
         ++i_;
         return *this;
      }
      Iterator operator++(int)
      {
         Iterator t(*this);
         ++i_;
         return t;
      }
      bool operator==(const Iterator& o) const { return i_ == o.i_; }
      bool operator!=(const Iterator& o) const { return i_ != o.i_; }
   };
   typedef Iterator iterator;
   std::vector<std::shared_ptr<Patch> > patches_;
   IntVector ratio0_, ratioc_;
   int num_;
   BoxContainer boxes_;
   std::shared_ptr<BaseGridGeometry> geom_;
   bool inh_;
   std::map<int, double> alloc_;

   PatchLevel(int num, const BoxContainer& boxes, const IntVector& r0, const IntVector& rc,
              const std::shared_ptr<BaseGridGeometry>& g, bool inh = true)
       : ratio0_(r0), ratioc_(rc), num_(num), boxes_(boxes), geom_(g), inh_(inh)
   {
      int n = 0;
      for (auto& b : boxes_) {
         b.setLocalId(n);
         patches_.push_back(std::make_shared<Patch>(b, num, n, g->makeGeom(b, r0), inh));
         n++;
      }
   }
   // a level that belongs to no hierarchy
   template <class G, class D>
   PatchLevel(const BoxLevel& l, const std::shared_ptr<G>& g, const std::shared_ptr<D>&)
       : PatchLevel(0, l.d_b, l.d_ratio, IntVector(Dimension(NDIM), 1), g, false)
   {
   }
   Iterator begin() const { return Iterator(&patches_, 0); }
   Iterator end() const { return Iterator(&patches_, patches_.size()); }
   int getNumberOfPatches() const { return (int)patches_.size(); }
   int getLocalNumberOfPatches() const { return (int)patches_.size(); }
   int getGlobalNumberOfPatches() const { return (int)patches_.size(); }
   int getLocalNumberOfCells() const { return (int)boxes_.getTotalSizeOfBoxes(); }
   int getGlobalNumberOfCells() const { return (int)boxes_.getTotalSizeOfBoxes(); }
   std::shared_ptr<Patch> getPatch(int i) const { return patches_[i]; }
   std::shared_ptr<Patch> getPatch(const GlobalId& i) const { return patches_[i.getLocalId().getValue()]; }
   std::shared_ptr<Patch> getPatch(const BoxId& i, int) const { return patches_[i.getLocalId().getValue()]; }
   int getLevelNumber() const { return num_; }
   const IntVector& getRatioToLevelZero() const { return ratio0_; }
   const IntVector& getRatioToCoarserLevel() const { return ratioc_; }
   const BoxContainer& getBoxes() const { return boxes_; }
   std::shared_ptr<BaseGridGeometry> getGridGeometry() const { return geom_; }
   Dimension getDim() const { return Dimension(NDIM); }
   bool inHierarchy() const { return inh_; }
   BoxLevel bl_;
   const std::shared_ptr<BoxLevel> getBoxLevel() const
   {
      std::shared_ptr<BoxLevel> b(new BoxLevel());
      b->d_b = boxes_;
      return b;
   }
   BoxContainer getPhysicalDomain(const BlockId& = BlockId::zero()) const
   {
      return BoxContainer(Box::refine(geom_->domain_, ratio0_));
   }
   BoxContainer phys_tmp_;
   const BoxContainer& getPhysicalDomainArray() const { return boxes_; }
   bool checkAllocated(int id) const { return alloc_.count(id) > 0; }
   void allocatePatchData(int id, double t = 0.)
   {
      for (auto& p : patches_)
         p->allocatePatchData(id, t);
      alloc_[id] = t;
   }
   void allocatePatchData(const ComponentSelector& c, double t = 0.)
   {
      for (int i : c.all())
         allocatePatchData(i, t);
   }
   void deallocatePatchData(int id)
   {
      for (auto& p : patches_)
         p->deallocatePatchData(id);
      alloc_.erase(id);
   }
   void deallocatePatchData(const ComponentSelector& c)
   {
      for (int i : c.all())
         deallocatePatchData(i);
   }
   void setTime(double t, int id)
   {
      for (auto& p : patches_)
         p->setTime(t, id);
   }
   void setTime(double t)
   {
      for (auto& p : patches_)
         p->setTime(t);
   }
   void setTime(double t, const ComponentSelector& c)
   {
      for (int i : c.all())
         setTime(t, i);
   }
   tbox::SAMRAI_MPI getMPI() const { return tbox::SAMRAI_MPI::getSAMRAIWorld(); }
};
class PatchHierarchy : public tbox::Serializable
{
 public:
   // the hierarchy made last
   static PatchHierarchy*& last()
   {
      static PatchHierarchy* h = 0;
      return h;
   }
   std::vector<std::shared_ptr<PatchLevel> > levels_;
   std::shared_ptr<BaseGridGeometry> geom_;
   std::string name_;
   int maxl_;
   std::vector<IntVector> ratios_;
   std::map<int, IntVector> largest_, smallest_;
   PatchHierarchy(const std::string& n, const std::shared_ptr<BaseGridGeometry>& g,
                  const std::shared_ptr<tbox::Database>& db = std::shared_ptr<tbox::Database>());
   int getNumberOfLevels() const { return (int)levels_.size(); }
   int getMaxNumberOfLevels() const { return maxl_; }
   void setMaxNumberOfLevels(int n) { maxl_ = n; }
   int getFinestLevelNumber() const { return (int)levels_.size() - 1; }
   bool levelExists(int l) const { return l >= 0 && l < (int)levels_.size(); }
   bool finerLevelExists(int l) const { return levelExists(l + 1); }
   bool levelCanBeRefined(int l) const { return l >= 0 && l < maxl_ - 1; }
   std::shared_ptr<PatchLevel> getPatchLevel(int l) const
   {
      if (l < 0 || l >= (int)levels_.size()) throw SamAbort("getPatchLevel: no such level");
      return levels_[l];
   }
   std::shared_ptr<BaseGridGeometry> getGridGeometry() const { return geom_; }
   Dimension getDim() const { return Dimension(NDIM); }
   tbox::SAMRAI_MPI getMPI() const { return tbox::SAMRAI_MPI::getSAMRAIWorld(); }
   IntVector getRatioToCoarserLevel(int l) const { return l < (int)ratios_.size() ? ratios_[l] : IntVector(Dimension(NDIM), 1); }
   void setRatioToCoarserLevel(const IntVector& r, int l)
   {
      while ((int)ratios_.size() <= l)
         ratios_.push_back(IntVector(Dimension(NDIM), 1));
      ratios_[l] = r;
   }
   void makeNewPatchLevel(int l, const BoxContainer& boxes)
   {
      IntVector rc = l ? getRatioToCoarserLevel(l) : IntVector(Dimension(NDIM), 1);
      IntVector r0 = l ? levels_[l - 1]->getRatioToLevelZero() * rc : rc;
      std::shared_ptr<PatchLevel> p(new PatchLevel(l, boxes, r0, rc, geom_));
      if (l == (int)levels_.size())
         levels_.push_back(p);
      else
         levels_[l] = p;
   }
   void removePatchLevel(int l) { levels_.resize(l); }
   void initializeHierarchy();
   std::shared_ptr<PatchDescriptor> getPatchDescriptor() const
   {
      return VariableDatabase::getDatabase()->getPatchDescriptor();
   }
   IntVector getLargestPatchSize(int) const { return IntVector(Dimension(NDIM), INT_MAX / 2); }
   IntVector getSmallestPatchSize(int) const { return IntVector(Dimension(NDIM), 1); }
   std::shared_ptr<PatchHierarchy> makeRefinedPatchHierarchy(const std::string&, const IntVector&) const
   {
      throw SamAbort("not supported");
   }
   void putToRestart(const std::shared_ptr<tbox::Database>&) const override;
   ~PatchHierarchy();
};
// Regions of a level's patches that touch the coarse-fine boundary.
class CoarseFineBoundary
{
   std::map<GlobalId, std::vector<std::vector<BoundaryBox> > > b_;

 public:
   CoarseFineBoundary(const Dimension&) {}
   CoarseFineBoundary(const PatchHierarchy& h, int ln, const IntVector& max_ghost) { build(h, ln, max_ghost); }
   CoarseFineBoundary(const PatchLevel& l, const PatchLevel&, const IntVector&) {}
   void build(const PatchHierarchy& h, int ln, const IntVector&);
   void clear(int = 0) { b_.clear(); }
   const std::vector<BoundaryBox>& getBoundaries(const GlobalId& id, int codim, const BlockId& = BlockId::zero()) const
   {
      static std::vector<BoundaryBox> none;
      auto i = b_.find(id);
      return i == b_.end() ? none : i->second[codim - 1];
   }
   const std::vector<BoundaryBox>& getEdgeBoundaries(const GlobalId& id) const { return getBoundaries(id, NDIM - 1); }
   const std::vector<BoundaryBox>& getFaceBoundaries(const GlobalId& id) const { return getBoundaries(id, NDIM - 2); }
   const std::vector<BoundaryBox>& getNodeBoundaries(const GlobalId& id) const { return getBoundaries(id, NDIM); }
};
// all translations of the periodic domain (in cells of a level), identity first
inline std::vector<IntVector> periodicShifts(const BaseGridGeometry& g, const IntVector& ratio)
{
   std::vector<IntVector> r(1, IntVector(Dimension(NDIM), 0));
   IntVector p = g.getPeriodicShift(ratio);
   for (int d = 0; d < NDIM; d++)
      if (p[d]) {
         size_t n = r.size();
         for (size_t i = 0; i < n; i++)
            for (int s = -1; s <= 1; s += 2) {
               IntVector v(r[i]);
               v[d] += s * p[d];
               r.push_back(v);
            }
      }
   return r;
}
inline void CoarseFineBoundary::build(const PatchHierarchy& h, int ln, const IntVector&)
{
   b_.clear();
   std::shared_ptr<PatchLevel> l = h.getPatchLevel(ln);
   Box dom = Box::refine(h.geom_->domain_, l->ratio0_);
   for (int d = 0; d < NDIM; d++)
      if (h.geom_->periodic_[d]) dom.grow(d, 1000000);
   std::vector<IntVector> sh = periodicShifts(*h.geom_, l->ratio0_);
   for (auto& p : l->patches_) {
      std::vector<std::vector<BoundaryBox> >& v = b_[p->getGlobalId()];
      v.resize(NDIM);
      if (ln == 0) continue;
      for (int d = 0; d < NDIM; d++)
         for (int s = 0; s < 2; s++) {
            Box face(p->getBox());
            if (s)
               face.lower(d) = face.upper(d) = face.upper(d) + 1;
            else
               face.lower(d) = face.upper(d) = face.lower(d) - 1;
            BoxContainer c(face);
            for (auto& q : l->patches_)
               for (auto& t : sh)
                  c.removeIntersections(Box::shift(q->getBox(), t));
            for (auto& b : c) {
               Box x = b * dom;
               if (!x.empty()) v[0].push_back(BoundaryBox(x, 1, 2 * d + s));
            }
         }
   }
}
}  // namespace hier
}  // namespace SAMRAI
#endif
