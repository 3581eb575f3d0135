// A small stand-in for the parts of SUNDIALS/CVODE that AMPE's CVODESolver
// talks to: an explicit, error controlled second order integrator behind
// CVODE's C interface.  It steps any N_Vector through its operation table.
#ifndef sam_sundials_h
#define sam_sundials_h
#include <algorithm>
#include <cmath>
#include <cstdlib>
typedef double realtype;
typedef int booleantype;
typedef long sunindextype;
struct _generic_N_Vector;
typedef struct _generic_N_Vector* N_Vector;
struct _generic_N_Vector_Ops {
   N_Vector (*nvclone)(N_Vector);
   void (*nvdestroy)(N_Vector);
   void (*nvlinearsum)(realtype, N_Vector, realtype, N_Vector, N_Vector);
   void (*nvconst)(realtype, N_Vector);
   void (*nvprod)(N_Vector, N_Vector, N_Vector);
   void (*nvdiv)(N_Vector, N_Vector, N_Vector);
   void (*nvscale)(realtype, N_Vector, N_Vector);
   void (*nvabs)(N_Vector, N_Vector);
   void (*nvinv)(N_Vector, N_Vector);
   void (*nvaddconst)(N_Vector, realtype, N_Vector);
   realtype (*nvdotprod)(N_Vector, N_Vector);
   realtype (*nvmaxnorm)(N_Vector);
   realtype (*nvwrmsnorm)(N_Vector, N_Vector);
   realtype (*nvmin)(N_Vector);
   realtype (*nvwl2norm)(N_Vector, N_Vector);
   realtype (*nvl1norm)(N_Vector);
   void (*nvcompare)(realtype, N_Vector, N_Vector);
   booleantype (*nvinvtest)(N_Vector, N_Vector);
   sunindextype (*nvgetlength)(N_Vector);
};
typedef struct _generic_N_Vector_Ops* N_Vector_Ops;
struct _generic_N_Vector {
   void* content;
   N_Vector_Ops ops;
};
struct sam_sunls {
   int x;
};
typedef struct sam_sunls* SUNLinearSolver;
enum { CV_ADAMS = 1, CV_BDF = 2, CV_NORMAL = 1, CV_ONE_STEP = 2, CV_SUCCESS = 0 };
enum { PREC_NONE = 0, PREC_LEFT = 1, PREC_RIGHT = 2, PREC_BOTH = 3 };
enum { MODIFIED_GS = 1, CLASSICAL_GS = 2 };
typedef int (*CVRhsFn)(realtype, N_Vector, N_Vector, void*);
typedef int (*CVProjFn)(realtype, N_Vector, N_Vector, realtype, N_Vector, void*);
typedef int (*CVSpilsPrecSetupFn)(realtype, N_Vector, N_Vector, booleantype, booleantype*, realtype, void*);
typedef int (*CVSpilsPrecSolveFn)(realtype, N_Vector, N_Vector, N_Vector, N_Vector, realtype, realtype, int, void*);
struct SamCV {
   CVRhsFn f, jtimes;
   CVProjFn proj;
   CVSpilsPrecSetupFn pset;
   CVSpilsPrecSolveFn psolve;
   void* user;
   double t, h, hlast, hmax, rtol, atol, h0;
   long nsteps, nrhs, nerr;
};
// checks may fix the step size (no error control) and observe each accepted
// state with its right-hand side
inline double sam_cv_fixed = 0.;
inline void (*sam_cv_hook)(void* cv, double t, double h, N_Vector y, N_Vector ydot) = 0;
// ... and change the state a step ends with
inline void (*sam_cv_end)(void* cv, double t, double h, N_Vector y, N_Vector ydot) = 0;
inline void* CVodeCreate(int)
{
   SamCV* m = (SamCV*)calloc(1, sizeof(SamCV));
   m->hmax = 1.e30;
   m->rtol = m->atol = 1.e-6;
   return m;
}
inline void CVodeFree(void** m)
{
   free(*m);
   *m = 0;
}
inline int CVodeInit(void* v, CVRhsFn f, realtype t0, N_Vector)
{
   SamCV* m = (SamCV*)v;
   m->f = f;
   m->t = t0;
   return 0;
}
#define SAMCV(name, type, stmt)             \
   inline int name(void* v, type a)         \
   {                                        \
      SamCV* m = (SamCV*)v;                 \
      (void)m;                              \
      (void)a;                              \
      stmt;                                 \
      return 0;                             \
   }
SAMCV(CVodeSetUserData, void*, m->user = a)
SAMCV(CVSpilsSetLinearSolver, SUNLinearSolver, )
SAMCV(CVodeSetLSetupFrequency, long, )
SAMCV(CVodeSetMaxOrd, int, )
SAMCV(CVodeSetMaxNumSteps, long, )
SAMCV(CVodeSetMaxHnilWarns, int, )
SAMCV(CVodeSetInitStep, double, m->h0 = m->h = a)
SAMCV(CVodeSetMaxStep, double, m->hmax = a)
SAMCV(CVodeSetMinStep, double, )
SAMCV(CVodeSetProjFn, CVProjFn, m->proj = a)
SAMCV(CVodeSetJacTimesRhsFn, CVRhsFn, m->jtimes = a)
SAMCV(CVodeSetLSNormFactor, double, )
SAMCV(CVodeGetNumSteps, long*, *a = m->nsteps)
SAMCV(CVodeGetNumRhsEvals, long*, *a = m->nrhs)
SAMCV(CVodeGetNumLinSolvSetups, long*, *a = 0)
SAMCV(CVodeGetNumNonlinSolvIters, long*, *a = 0)
SAMCV(CVodeGetNumNonlinSolvConvFails, long*, *a = 0)
SAMCV(CVodeGetNumErrTestFails, long*, *a = m->nerr)
SAMCV(CVodeGetLastOrder, int*, *a = 2)
SAMCV(CVodeGetCurrentOrder, int*, *a = 2)
SAMCV(CVodeGetLastStep, double*, *a = m->hlast)
SAMCV(CVodeGetCurrentStep, double*, *a = m->h)
SAMCV(CVodeGetCurrentTime, double*, *a = m->t)
SAMCV(CVodeGetTolScaleFactor, double*, *a = 1.)
SAMCV(CVSpilsGetNumPrecEvals, long*, *a = 0)
SAMCV(CVSpilsGetNumLinIters, long*, *a = 0)
SAMCV(CVSpilsGetNumPrecSolves, long*, *a = 0)
SAMCV(CVSpilsGetNumConvFails, long*, *a = 0)
inline int CVodeReInit(void* v, realtype t, N_Vector)
{
   SamCV* m = (SamCV*)v;
   m->t = t;
   m->h = m->h0;
   return 0;
}
inline int CVodeSStolerances(void* v, realtype r, realtype a)
{
   ((SamCV*)v)->rtol = r;
   ((SamCV*)v)->atol = a;
   return 0;
}
inline int CVSpilsSetPreconditioner(void* v, CVSpilsPrecSetupFn s, CVSpilsPrecSolveFn p)
{
   ((SamCV*)v)->pset = s;
   ((SamCV*)v)->psolve = p;
   return 0;
}
inline int CVodeGetWorkSpace(void*, long* a, long* b)
{
   *a = *b = 0;
   return 0;
}
inline int CVodeGetDky(void*, realtype, int, N_Vector) { return -1; }
inline SUNLinearSolver SUNSPGMR(N_Vector, int, int) { return (SUNLinearSolver)calloc(1, sizeof(sam_sunls)); }
inline int SUNLinSolFree(SUNLinearSolver s)
{
   free(s);
   return 0;
}
inline int CVode(void* v, realtype tend, N_Vector y, realtype* tret, int itask)
{
   SamCV* m = (SamCV*)v;
   N_Vector_Ops o = y->ops;
   N_Vector y0 = o->nvclone(y), k1 = o->nvclone(y), k2 = o->nvclone(y), e = o->nvclone(y), w = o->nvclone(y);
   int rc = 0;
   if (m->h <= 0.) m->h = std::min(m->hmax, 1.e-4 * (tend - m->t));
   do {
      o->nvscale(1., y, y0);
      o->nvabs(y0, w);
      o->nvscale(m->rtol, w, w);
      o->nvaddconst(w, m->atol, w);
      o->nvinv(w, w);
      o->nvconst(0., k1);
      rc = m->f(m->t, y, k1, m->user);
      m->nrhs++;
      if (rc) break;
      m->h = std::min(m->h, m->hmax);
      if (sam_cv_fixed > 0.) m->h = sam_cv_fixed;
      if (sam_cv_hook) sam_cv_hook(m, m->t, m->h, y, k1);
      int tries = 0;
      for (;; tries++) {
         if (tries > 60) {
            rc = -4;
            break;
         }
         o->nvlinearsum(1., y0, m->h, k1, y);
         o->nvconst(0., k2);
         rc = m->f(m->t + m->h, y, k2, m->user);
         m->nrhs++;
         if (rc) break;
         o->nvlinearsum(.5 * m->h, k2, -.5 * m->h, k1, e);
         const double err = o->nvwrmsnorm(e, w);
         if (!(err == err)) {
            rc = -8;
            break;
         }
         if (err <= 1. || sam_cv_fixed > 0.) {
            o->nvlinearsum(1., y0, .5 * m->h, k1, y);
            o->nvlinearsum(1., y, .5 * m->h, k2, y);
            m->t += m->h;
            m->hlast = m->h;
            m->h = std::min(m->hmax, m->h * std::min(2., .9 / std::sqrt(std::max(err, 1.e-4))));
            m->nsteps++;
            break;
         }
         m->nerr++;
         m->h *= std::max(.2, .9 / std::sqrt(err));
      }
      if (rc) break;
      if (m->proj) {
         // as CVODE does by default: the error estimate is projected too
         N_Vector est = o->nvclone(y);
         o->nvscale(1., e, est);
         o->nvconst(0., e);
         rc = m->proj(m->t, y, e, 1.e-8, est, m->user);
         o->nvdestroy(est);
         if (rc) break;
         o->nvlinearsum(1., y, 1., e, y);
      }
      if (sam_cv_end) sam_cv_end(m, m->t, m->h, y, k1);
   } while (itask == CV_NORMAL && m->t < tend);
   *tret = m->t;
   o->nvdestroy(y0);
   o->nvdestroy(k1);
   o->nvdestroy(k2);
   o->nvdestroy(e);
   o->nvdestroy(w);
   return rc;
}
#endif
