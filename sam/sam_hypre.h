// A stand-in for hypre's structured interfaces: the system AMPE assembles is
// kept as given and solved to (near) machine precision with preconditioned
// BiCGSTAB / conjugate gradients on the periodic index space.
#ifndef sam_hypre_h
#define sam_hypre_h
extern "C++" {
#include <array>
#include <cmath>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
typedef std::array<int, 3> SamHI;
struct SamHGrid {
   int dim;
   std::vector<std::pair<SamHI, SamHI> > boxes;
   SamHI per{{0, 0, 0}};
   SamHI wrap(SamHI i) const
   {
      if (boxes.empty()) return i;
      SamHI lo = boxes[0].first;
      for (auto& b : boxes)
         for (int d = 0; d < 3; d++)
            lo[d] = std::min(lo[d], b.first[d]);
      for (int d = 0; d < dim; d++)
         if (per[d] > 0) {
            int m = (i[d] - lo[d]) % per[d];
            i[d] = lo[d] + (m < 0 ? m + per[d] : m);
         }
      return i;
   }
};
struct SamHStencil {
   std::vector<SamHI> off;
};
struct SamHMat {
   SamHGrid* g;
   SamHStencil* s;
   int sym = 0;
   std::map<SamHI, std::vector<double> > v;
};
struct SamHVec {
   SamHGrid* g;
   std::map<SamHI, double> v;
};
struct SamHSolver {
   double tol = 1.e-6, res = 0.;
   int maxit = 1000, its = 0;
};
typedef SamHGrid *HYPRE_StructGrid, *HYPRE_SStructGrid;
typedef SamHStencil *HYPRE_StructStencil, *HYPRE_SStructStencil, *HYPRE_SStructGraph;
typedef SamHMat *HYPRE_StructMatrix, *HYPRE_SStructMatrix;
typedef SamHVec *HYPRE_StructVector, *HYPRE_SStructVector;
typedef SamHSolver* HYPRE_StructSolver;
typedef struct hypre_x6* HYPRE_Solver;
typedef struct hypre_x7* HYPRE_ParCSRMatrix;
typedef struct hypre_x8* HYPRE_ParVector;
typedef int HYPRE_SStructVariable;
enum { HYPRE_SSTRUCT_VARIABLE_CELL = 0, HYPRE_SSTRUCT = 3312, HYPRE_STRUCT = 1111, HYPRE_PARCSR = 5555 };

inline SamHI samhi(int dim, const int* p)
{
   SamHI i{{0, 0, 0}};
   for (int d = 0; d < dim; d++)
      i[d] = p[d];
   return i;
}
template <class F>
inline void samhloop(const SamHI& lo, const SamHI& up, F f)
{
   for (int k = lo[2]; k <= up[2]; k++)
      for (int j = lo[1]; j <= up[1]; j++)
         for (int i = lo[0]; i <= up[0]; i++)
            f(SamHI{{i, j, k}});
}
// grid
inline int HYPRE_StructGridCreate(int, int dim, SamHGrid** g)
{
   *g = new SamHGrid();
   (*g)->dim = dim;
   return 0;
}
inline int HYPRE_StructGridSetExtents(SamHGrid* g, const int* lo, const int* up)
{
   g->boxes.push_back(std::make_pair(samhi(g->dim, lo), samhi(g->dim, up)));
   return 0;
}
inline int HYPRE_StructGridSetPeriodic(SamHGrid* g, const int* p)
{
   g->per = samhi(g->dim, p);
   return 0;
}
inline int HYPRE_StructGridAssemble(SamHGrid*) { return 0; }
inline int HYPRE_StructGridDestroy(SamHGrid* g)
{
   delete g;
   return 0;
}
// stencil
inline int HYPRE_StructStencilCreate(int, int n, SamHStencil** s)
{
   *s = new SamHStencil();
   (*s)->off.resize(n, SamHI{{0, 0, 0}});
   return 0;
}
struct SamHDim {
   static int& dim()
   {
      static int d = NDIM;
      return d;
   }
};
inline int HYPRE_StructStencilSetElement(SamHStencil* s, int i, const int* o)
{
   s->off.at(i) = samhi(NDIM, o);
   return 0;
}
inline int HYPRE_StructStencilDestroy(SamHStencil* s)
{
   delete s;
   return 0;
}
// matrix
inline int HYPRE_StructMatrixCreate(int, SamHGrid* g, SamHStencil* s, SamHMat** m)
{
   *m = new SamHMat();
   (*m)->g = g;
   (*m)->s = s;
   return 0;
}
inline int HYPRE_StructMatrixSetNumGhost(SamHMat*, const int*) { return 0; }
inline int HYPRE_StructMatrixSetSymmetric(SamHMat* m, int s)
{
   m->sym = s;
   return 0;
}
inline int HYPRE_StructMatrixInitialize(SamHMat*) { return 0; }
inline int HYPRE_StructMatrixAssemble(SamHMat*) { return 0; }
template <class... A>
inline int HYPRE_StructMatrixPrint(A...)
{
   return 0;
}
inline int HYPRE_StructMatrixDestroy(SamHMat* m)
{
   delete m;
   return 0;
}
inline int HYPRE_StructMatrixSetBoxValues(SamHMat* m, const int* lo, const int* up, int n, const int* e, const double* v)
{
   samhloop(samhi(m->g->dim, lo), samhi(m->g->dim, up), [&](const SamHI& i) {
      auto& r = m->v[i];
      r.resize(m->s->off.size(), 0.);
      for (int k = 0; k < n; k++)
         r.at(e[k]) = *v++;
   });
   return 0;
}
// vector
inline int HYPRE_StructVectorCreate(int, SamHGrid* g, SamHVec** m)
{
   *m = new SamHVec();
   (*m)->g = g;
   return 0;
}
inline int HYPRE_StructVectorSetNumGhost(SamHVec*, const int*) { return 0; }
inline int HYPRE_StructVectorInitialize(SamHVec*) { return 0; }
inline int HYPRE_StructVectorAssemble(SamHVec*) { return 0; }
template <class... A>
inline int HYPRE_StructVectorPrint(A...)
{
   return 0;
}
inline int HYPRE_StructVectorDestroy(SamHVec* m)
{
   delete m;
   return 0;
}
inline int HYPRE_StructVectorSetConstantValues(SamHVec* x, double c)
{
   for (auto& b : x->g->boxes)
      samhloop(b.first, b.second, [&](const SamHI& i) { x->v[i] = c; });
   return 0;
}
inline int HYPRE_StructVectorSetBoxValues(SamHVec* x, const int* lo, const int* up, const double* v)
{
   samhloop(samhi(x->g->dim, lo), samhi(x->g->dim, up), [&](const SamHI& i) { x->v[i] = *v++; });
   return 0;
}
inline int HYPRE_StructVectorGetBoxValues(SamHVec* x, const int* lo, const int* up, double* v)
{
   samhloop(samhi(x->g->dim, lo), samhi(x->g->dim, up), [&](const SamHI& i) { *v++ = x->v[i]; });
   return 0;
}
// y = A x
inline void samh_apply(const SamHMat* A, const std::map<SamHI, int>& id, const std::vector<double>& x,
                       std::vector<double>& y)
{
   std::fill(y.begin(), y.end(), 0.);
   for (auto& row : A->v) {
      auto r = id.find(row.first);
      if (r == id.end()) continue;
      for (size_t s = 0; s < A->s->off.size(); s++) {
         const SamHI& o = A->s->off[s];
         SamHI n{{row.first[0] + o[0], row.first[1] + o[1], row.first[2] + o[2]}};
         n = A->g->wrap(n);
         auto c = id.find(n);
         if (c == id.end()) continue;
         y[r->second] += row.second[s] * x[c->second];
         const bool diag = o[0] == 0 && o[1] == 0 && o[2] == 0;
         if (A->sym && !diag) y[c->second] += row.second[s] * x[r->second];
      }
   }
}
inline int samh_solve(SamHSolver* S, SamHMat* A, SamHVec* b, SamHVec* x)
{
   // a symmetric matrix may be given by its full stencil as well
   SamHMat M = *A;
   if (M.sym) {
      for (auto& o : M.s->off)
         for (auto& p : M.s->off)
            if ((o[0] || o[1] || o[2]) && o[0] == -p[0] && o[1] == -p[1] && o[2] == -p[2]) M.sym = 0;
   }
   std::map<SamHI, int> id;
   for (auto& bx : A->g->boxes)
      samhloop(bx.first, bx.second, [&](const SamHI& i) {
         int n = (int)id.size();
         id[i] = n;
      });
   const int n = (int)id.size();
   std::vector<double> X(n), B(n), D(n, 1.), r(n), z(n), p(n, 0.), v(n, 0.), rt(n), s(n), t(n), y(n);
   for (auto& k : id) {
      X[k.second] = x->v[k.first];
      B[k.second] = b->v[k.first];
      for (size_t q = 0; q < A->s->off.size(); q++)
         if (A->s->off[q] == SamHI{{0, 0, 0}}) D[k.second] = A->v[k.first].at(q);
      if (D[k.second] == 0.) D[k.second] = 1.;
   }
   double bn = 0.;
   samh_apply(&M, id, X, r);
   for (int i = 0; i < n; i++) {
      r[i] = B[i] - r[i];
      bn += B[i] * B[i];
   }
   bn = std::sqrt(bn);
   if (bn == 0.) bn = 1.;
   // small regular systems: elimination
   if (n <= 256) {
      std::vector<double> Z(n * n, 0.);
      double top = 0.;
      for (auto& row : M.v) {
         auto i = id.find(row.first);
         if (i == id.end()) continue;
         for (size_t k = 0; k < M.s->off.size(); k++) {
            const SamHI& o = M.s->off[k];
            auto j = id.find(M.g->wrap(SamHI{{row.first[0] + o[0], row.first[1] + o[1], row.first[2] + o[2]}}));
            if (j == id.end()) continue;
            Z[i->second * n + j->second] += row.second[k];
            if (M.sym && (o[0] || o[1] || o[2])) Z[j->second * n + i->second] += row.second[k];
         }
      }
      for (double z : Z)
         top = std::max(top, std::fabs(z));
      std::vector<double> q(B);
      bool ok = true;
      for (int k = 0; k < n && ok; k++) {
         int m = k;
         for (int i = k + 1; i < n; i++)
            if (std::fabs(Z[i * n + k]) > std::fabs(Z[m * n + k])) m = i;
         if (!(std::fabs(Z[m * n + k]) > 1.e-12 * top)) {
            ok = false;
            break;
         }
         if (m != k) {
            for (int j = k; j < n; j++)
               std::swap(Z[k * n + j], Z[m * n + j]);
            std::swap(q[k], q[m]);
         }
         for (int i = k + 1; i < n; i++) {
            const double w = Z[i * n + k] / Z[k * n + k];
            if (w == 0.) continue;
            for (int j = k; j < n; j++)
               Z[i * n + j] -= w * Z[k * n + j];
            q[i] -= w * q[k];
         }
      }
      if (ok) {
         for (int k = n - 1; k >= 0; k--) {
            for (int j = k + 1; j < n; j++)
               q[k] -= Z[k * n + j] * q[j];
            q[k] /= Z[k * n + k];
         }
         samh_apply(&M, id, q, r);
         double rr = 0.;
         for (int i = 0; i < n; i++)
            rr += (B[i] - r[i]) * (B[i] - r[i]);
         for (auto& k : id)
            x->v[k.first] = q[k.second];
         S->its = 1;
         S->res = std::sqrt(rr) / bn;
         return 0;
      }
   }
   rt = r;
   double rho = 1., al = 1., om = 1.;
   int it = 0;
   double rn = 0.;
   const int cap = 20 * n + 200;
   for (it = 0; it < cap; it++) {
      rn = 0.;
      for (int i = 0; i < n; i++)
         rn += r[i] * r[i];
      rn = std::sqrt(rn);
      if (!(rn > 1.e-13 * bn)) break;
      double rho1 = 0.;
      for (int i = 0; i < n; i++)
         rho1 += rt[i] * r[i];
      if (std::fabs(rho1) < 1.e-300) break;
      const double be = rho1 / rho * al / om;
      rho = rho1;
      for (int i = 0; i < n; i++) {
         p[i] = r[i] + be * (p[i] - om * v[i]);
         y[i] = p[i] / D[i];
      }
      samh_apply(&M, id, y, v);
      double rv = 0.;
      for (int i = 0; i < n; i++)
         rv += rt[i] * v[i];
      if (rv == 0.) break;
      al = rho / rv;
      for (int i = 0; i < n; i++) {
         s[i] = r[i] - al * v[i];
         z[i] = s[i] / D[i];
      }
      samh_apply(&M, id, z, t);
      double ts = 0., tt = 0.;
      for (int i = 0; i < n; i++) {
         ts += t[i] * s[i];
         tt += t[i] * t[i];
      }
      om = tt > 0. ? ts / tt : 0.;
      for (int i = 0; i < n; i++) {
         X[i] += al * y[i] + om * z[i];
         r[i] = s[i] - om * t[i];
      }
      if (om == 0.) break;
   }
   for (auto& k : id)
      x->v[k.first] = X[k.second];
   S->its = 1;
   S->res = rn / bn;
   return 0;
}
#define SAMH_SOLVER(N)                                                                                          \
   inline int HYPRE_Struct##N##Create(int, SamHSolver** s)                                                      \
   {                                                                                                            \
      *s = new SamHSolver();                                                                                    \
      return 0;                                                                                                 \
   }                                                                                                            \
   inline int HYPRE_Struct##N##Destroy(SamHSolver* s)                                                           \
   {                                                                                                            \
      delete s;                                                                                                 \
      return 0;                                                                                                 \
   }                                                                                                            \
   inline int HYPRE_Struct##N##Setup(SamHSolver*, SamHMat*, SamHVec*, SamHVec*) { return 0; }                   \
   inline int HYPRE_Struct##N##Solve(SamHSolver* s, SamHMat* A, SamHVec* b, SamHVec* x)                         \
   {                                                                                                            \
      return samh_solve(s, A, b, x);                                                                            \
   }                                                                                                            \
   inline int HYPRE_Struct##N##SetTol(SamHSolver* s, double t)                                                  \
   {                                                                                                            \
      s->tol = t;                                                                                               \
      return 0;                                                                                                 \
   }                                                                                                            \
   inline int HYPRE_Struct##N##SetMaxIter(SamHSolver* s, int t)                                                 \
   {                                                                                                            \
      s->maxit = t;                                                                                             \
      return 0;                                                                                                 \
   }                                                                                                            \
   inline int HYPRE_Struct##N##SetMemoryUse(SamHSolver*, int) { return 0; }                                     \
   inline int HYPRE_Struct##N##SetLogging(SamHSolver*, int) { return 0; }                                       \
   inline int HYPRE_Struct##N##SetPrintLevel(SamHSolver*, int) { return 0; }                                    \
   inline int HYPRE_Struct##N##SetZeroGuess(SamHSolver*) { return 0; }                                          \
   inline int HYPRE_Struct##N##SetNumPreRelax(SamHSolver*, int) { return 0; }                                   \
   inline int HYPRE_Struct##N##SetNumPostRelax(SamHSolver*, int) { return 0; }                                  \
   inline int HYPRE_Struct##N##GetNumIterations(SamHSolver* s, int* n)                                          \
   {                                                                                                            \
      *n = s->its;                                                                                              \
      return 0;                                                                                                 \
   }                                                                                                            \
   inline int HYPRE_Struct##N##GetFinalRelativeResidualNorm(SamHSolver* s, double* r)                           \
   {                                                                                                            \
      *r = s->res;                                                                                              \
      return 0;                                                                                                 \
   }
SAMH_SOLVER(SMG)
SAMH_SOLVER(PFMG)
SAMH_SOLVER(CycRed)
SAMH_SOLVER(PCG)
template <class... A>
inline int HYPRE_StructPCGSetPrecond(A...)
{
   return 0;
}
// semi-structured interface: one part, one cell centred variable
inline int HYPRE_SStructGridCreate(int c, int dim, int, SamHGrid** g) { return HYPRE_StructGridCreate(c, dim, g); }
inline int HYPRE_SStructGridSetExtents(SamHGrid* g, int, const int* lo, const int* up)
{
   return HYPRE_StructGridSetExtents(g, lo, up);
}
inline int HYPRE_SStructGridSetPeriodic(SamHGrid* g, int, const int* p) { return HYPRE_StructGridSetPeriodic(g, p); }
inline int HYPRE_SStructGridSetVariables(SamHGrid*, int, int, int*) { return 0; }
inline int HYPRE_SStructGridAssemble(SamHGrid*) { return 0; }
inline int HYPRE_SStructGridDestroy(SamHGrid* g) { return HYPRE_StructGridDestroy(g); }
struct SamHGraph {
   SamHGrid* g;
   SamHStencil* s;
};
inline std::map<void*, SamHGraph>& samh_graphs()
{
   static std::map<void*, SamHGraph> m;
   return m;
}
inline int HYPRE_SStructGraphCreate(int, SamHGrid* g, SamHStencil** gr)
{
   *gr = new SamHStencil();
   samh_graphs()[*gr].g = g;
   return 0;
}
inline int HYPRE_SStructGraphSetObjectType(SamHStencil*, int) { return 0; }
inline int HYPRE_SStructGraphSetStencil(SamHStencil* gr, int, int, SamHStencil* s)
{
   samh_graphs()[gr].s = s;
   return 0;
}
inline int HYPRE_SStructGraphAssemble(SamHStencil*) { return 0; }
inline int HYPRE_SStructGraphDestroy(SamHStencil* g)
{
   samh_graphs().erase(g);
   delete g;
   return 0;
}
inline int HYPRE_SStructStencilCreate(int d, int n, SamHStencil** s) { return HYPRE_StructStencilCreate(d, n, s); }
inline int HYPRE_SStructStencilSetEntry(SamHStencil* s, int e, const int* o, int)
{
   return HYPRE_StructStencilSetElement(s, e, o);
}
inline int HYPRE_SStructStencilDestroy(SamHStencil* s) { return HYPRE_StructStencilDestroy(s); }
inline int HYPRE_SStructMatrixCreate(int c, SamHStencil* gr, SamHMat** m)
{
   return HYPRE_StructMatrixCreate(c, samh_graphs()[gr].g, samh_graphs()[gr].s, m);
}
inline int HYPRE_SStructMatrixSetSymmetric(SamHMat* m, int, int, int, int s)
{
   return HYPRE_StructMatrixSetSymmetric(m, s);
}
inline int HYPRE_SStructMatrixSetObjectType(SamHMat*, int) { return 0; }
inline int HYPRE_SStructMatrixInitialize(SamHMat*) { return 0; }
inline int HYPRE_SStructMatrixAssemble(SamHMat*) { return 0; }
inline int HYPRE_SStructMatrixSetBoxValues(SamHMat* m, int, const int* lo, const int* up, int, int n, const int* e,
                                           const double* v)
{
   return HYPRE_StructMatrixSetBoxValues(m, lo, up, n, e, v);
}
template <class... A>
inline int HYPRE_SStructMatrixPrint(A...)
{
   return 0;
}
inline int HYPRE_SStructMatrixDestroy(SamHMat* m) { return HYPRE_StructMatrixDestroy(m); }
inline int HYPRE_SStructMatrixGetObject(SamHMat* m, void** o)
{
   *o = m;
   return 0;
}
inline int HYPRE_SStructVectorCreate(int c, SamHGrid* g, SamHVec** m) { return HYPRE_StructVectorCreate(c, g, m); }
inline int HYPRE_SStructVectorSetObjectType(SamHVec*, int) { return 0; }
inline int HYPRE_SStructVectorInitialize(SamHVec*) { return 0; }
inline int HYPRE_SStructVectorAssemble(SamHVec*) { return 0; }
inline int HYPRE_SStructVectorGather(SamHVec*) { return 0; }
inline int HYPRE_SStructVectorSetBoxValues(SamHVec* x, int, const int* lo, const int* up, int, const double* v)
{
   return HYPRE_StructVectorSetBoxValues(x, lo, up, v);
}
inline int HYPRE_SStructVectorGetBoxValues(SamHVec* x, int, const int* lo, const int* up, int, double* v)
{
   return HYPRE_StructVectorGetBoxValues(x, lo, up, v);
}
template <class... A>
inline int HYPRE_SStructVectorPrint(A...)
{
   return 0;
}
inline int HYPRE_SStructVectorDestroy(SamHVec* m) { return HYPRE_StructVectorDestroy(m); }
inline int HYPRE_SStructVectorGetObject(SamHVec* m, void** o)
{
   *o = m;
   return 0;
}
#define SAMH_NO(N)                                                                  \
   template <class... A>                                                            \
   inline int N(A...)                                                               \
   {                                                                                \
      throw std::runtime_error("hypre double: " #N " is not available");            \
   }
SAMH_NO(HYPRE_BoomerAMGCreate)
SAMH_NO(HYPRE_BoomerAMGDestroy)
SAMH_NO(HYPRE_BoomerAMGGetFinalRelativeResidualNorm)
SAMH_NO(HYPRE_BoomerAMGGetNumIterations)
SAMH_NO(HYPRE_BoomerAMGSetCoarsenType)
SAMH_NO(HYPRE_BoomerAMGSetMaxIter)
SAMH_NO(HYPRE_BoomerAMGSetPrintFileName)
SAMH_NO(HYPRE_BoomerAMGSetPrintLevel)
SAMH_NO(HYPRE_BoomerAMGSetStrongThreshold)
SAMH_NO(HYPRE_BoomerAMGSetTol)
inline int HYPRE_BoomerAMGSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector) { return 1; }
inline int HYPRE_BoomerAMGSolve(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector) { return 1; }
SAMH_NO(HYPRE_PCGGetFinalRelativeResidualNorm)
SAMH_NO(HYPRE_PCGGetNumIterations)
SAMH_NO(HYPRE_PCGSetLogging)
SAMH_NO(HYPRE_PCGSetMaxIter)
SAMH_NO(HYPRE_PCGSetPrintLevel)
SAMH_NO(HYPRE_PCGSetTol)
SAMH_NO(HYPRE_ParCSRPCGCreate)
SAMH_NO(HYPRE_ParCSRPCGDestroy)
SAMH_NO(HYPRE_ParCSRPCGSetPrecond)
SAMH_NO(HYPRE_ParCSRPCGSetup)
SAMH_NO(HYPRE_ParCSRPCGSolve)
}
#endif
