// Out-of-line pieces of the SAMRAI double: the Robin boundary kernels of
// SAMRAI's solver package and a few static members.
#include "sam_all.h"
namespace
{
struct Arr {
   double* p;
   int lo[3], n[3];
   double& operator()(int i, int j, int k) const
   {
      return p[(i - lo[0]) + (long)n[0] * ((j - lo[1]) + (long)n[1] * (k - lo[2]))];
   }
};
// a u + b du/dn = g at the face, with u and du/dn centred on it
void type1(const Arr& u, const Arr& a, const Arr& b, const double* g, const int* beg, const int* end, int face, int ghost,
           int inte, int location, double h, int zerog)
{
   int d = location / 2;
   Arr ga = a;
   ga.p = const_cast<double*>(g);
   for (int k = beg[2]; k <= end[2]; k++)
      for (int j = beg[1]; j <= end[1]; j++)
         for (int i = beg[0]; i <= end[0]; i++) {
            int f[3] = {i, j, k}, n[3] = {i, j, k}, o[3] = {i, j, k};
            f[d] = face;
            n[d] = inte;
            o[d] = ghost;
            double av = a(f[0], f[1], f[2]), bv = b(f[0], f[1], f[2]);
            double gv = (zerog == 1) ? 0. : ga(f[0], f[1], f[2]);
            u(o[0], o[1], o[2]) = (h * gv + u(n[0], n[1], n[2]) * (bv - h * av / 2)) / (bv + h * av / 2);
         }
}
}
extern "C" {
void settype1cells2d_(double* data, const int& i0, const int& i1, const int& j0, const int& j1, const double* a,
                      const double* b, const double* g, const int& f0, const int& f1, const int& f2, const int& f3,
                      const int& ibeg, const int& iend, const int& jbeg, const int& jend, const int& face,
                      const int& ghos, const int& inte, const int& location, const double& h, const int& zerog)
{
   Arr u = {data, {i0, j0, 0}, {i1 - i0 + 1, j1 - j0 + 1, 1}};
   Arr aa = {const_cast<double*>(a), {f0, f2, 0}, {f1 - f0 + 1, f3 - f2 + 1, 1}}, bb = aa;
   bb.p = const_cast<double*>(b);
   int beg[3] = {ibeg, jbeg, 0}, end[3] = {iend, jend, 0};
   type1(u, aa, bb, g, beg, end, face, ghos, inte, location, h, zerog);
}
void settype1cells3d_(double* data, const int& i0, const int& i1, const int& j0, const int& j1, const int& k0,
                      const int& k1, const double* a, const double* b, const double* g, const int& f0, const int& f1,
                      const int& f2, const int& f3, const int& f4, const int& f5, const int& ibeg, const int& iend,
                      const int& jbeg, const int& jend, const int& kbeg, const int& kend, const int& face,
                      const int& ghos, const int& inte, const int& location, const double& h, const int& zerog)
{
   Arr u = {data, {i0, j0, k0}, {i1 - i0 + 1, j1 - j0 + 1, k1 - k0 + 1}};
   Arr aa = {const_cast<double*>(a), {f0, f2, f4}, {f1 - f0 + 1, f3 - f2 + 1, f5 - f4 + 1}}, bb = aa;
   bb.p = const_cast<double*>(b);
   int beg[3] = {ibeg, jbeg, kbeg}, end[3] = {iend, jend, kend};
   type1(u, aa, bb, g, beg, end, face, ghos, inte, location, h, zerog);
}
// 2D corner: linear extrapolation through the two edge values and the interior
void settype2cells2d_(double* data, const int& i0, const int& i1, const int& j0, const int& j1, const int* lower,
                      const int* upper, const int& location)
{
   Arr u = {data, {i0, j0, 0}, {i1 - i0 + 1, j1 - j0 + 1, 1}};
   int si = location % 2 ? -1 : 1, sj = location / 2 ? -1 : 1;
   for (int j = lower[1]; j <= upper[1]; j++)
      for (int i = lower[0]; i <= upper[0]; i++)
         u(i, j, 0) = u(i + si, j, 0) + u(i, j + sj, 0) - u(i + si, j + sj, 0);
}
void settype2cells3d_(double* data, const int& i0, const int& i1, const int& j0, const int& j1, const int& k0,
                      const int& k1, const int* lower, const int* upper, const int& location)
{
   Arr u = {data, {i0, j0, k0}, {i1 - i0 + 1, j1 - j0 + 1, k1 - k0 + 1}};
   int along = 2 - location / 4, s0 = location % 2 ? -1 : 1, s1 = (location / 2) % 2 ? -1 : 1;
   int a = along == 0 ? 1 : 0, b = along == 2 ? 1 : 2;
   for (int k = lower[2]; k <= upper[2]; k++)
      for (int j = lower[1]; j <= upper[1]; j++)
         for (int i = lower[0]; i <= upper[0]; i++) {
            int p[3] = {i, j, k}, q[3] = {i, j, k}, r[3] = {i, j, k};
            p[a] += s0;
            q[b] += s1;
            r[a] += s0;
            r[b] += s1;
            u(i, j, k) = u(p[0], p[1], p[2]) + u(q[0], q[1], q[2]) - u(r[0], r[1], r[2]);
         }
}
void settype3cells3d_(double* data, const int& i0, const int& i1, const int& j0, const int& j1, const int& k0,
                      const int& k1, const int* lower, const int* upper, const int& location)
{
   Arr u = {data, {i0, j0, k0}, {i1 - i0 + 1, j1 - j0 + 1, k1 - k0 + 1}};
   int s[3] = {location % 2 ? -1 : 1, (location / 2) % 2 ? -1 : 1, location / 4 ? -1 : 1};
   for (int k = lower[2]; k <= upper[2]; k++)
      for (int j = lower[1]; j <= upper[1]; j++)
         for (int i = lower[0]; i <= upper[0]; i++)
            u(i, j, k) = (u(i + s[0], j, k) + u(i, j + s[1], k) + u(i, j, k + s[2]) - u(i + s[0], j + s[1], k + s[2])) / 2;
}
}
namespace SAMRAI
{
namespace tbox
{
SAMRAI_MPI::Comm SAMRAI_MPI::commWorld = 0;
SAMRAI_MPI::Comm SAMRAI_MPI::commNull = -1;
}
}
// ---- kernels of SAMRAI's cell centred Poisson solver ----
namespace
{
Arr arr2(const double* p, int a0, int a1, int b0, int b1)
{
   return Arr{const_cast<double*>(p), {a0, b0, 0}, {a1 - a0 + 1, b1 - b0 + 1, 1}};
}
Arr arr3(const double* p, int a0, int a1, int b0, int b1, int c0, int c1)
{
   return Arr{const_cast<double*>(p), {a0, b0, c0}, {a1 - a0 + 1, b1 - b0 + 1, c1 - c0 + 1}};
}
// sum of the off diagonal entries of a cell
double offsum(const Arr* o, int dim, int i, int j, int k)
{
   double s = o[0](i, j, k) + o[0](i + 1, j, k) + o[1](i, j, k) + o[1](i, j + 1, k);
   if (dim == 3) s += o[2](i, j, k) + o[2](i, j, k + 1);
   return s;
}
void compdiag(int dim, double* diag, const double* c, int ctype, const double* const* off, const int* lo, const int* up,
              double cs, double ds)
{
   Arr o[3];
   for (int d = 0; d < dim; d++) {
      o[d] = arr3(off[d], lo[0], up[0], lo[1], up[1], lo[2], up[2]);
      o[d].n[d]++;
   }
   Arr D = arr3(diag, lo[0], up[0], lo[1], up[1], lo[2], up[2]), C = D;
   C.p = const_cast<double*>(c);
   for (int k = lo[2]; k <= up[2]; k++)
      for (int j = lo[1]; j <= up[1]; j++)
         for (int i = lo[0]; i <= up[0]; i++)
            D(i, j, k) = (ctype == 2 ? cs * C(i, j, k) : ctype == 1 ? cs * *c : 0.) - ds * offsum(o, dim, i, j, k);
}
// eliminate the ghost value u_ghost = k0*g + k1*u_int at a physical boundary
void adjbdry(int dim, double* diag, const double* const* off, const int* plo, const int* pup, const Arr& A, const Arr& B,
             const Arr& K, const int* lower, const int* upper, int location, const double* h)
{
   int d = location / 2, up = location % 2;
   Arr o = arr3(off[d], plo[0], pup[0], plo[1], pup[1], plo[2], pup[2]);
   o.n[d]++;
   Arr D = arr3(diag, plo[0], pup[0], plo[1], pup[1], plo[2], pup[2]);
   int lo[3] = {lower[0], lower[1], dim == 3 ? lower[2] : 0}, hi[3] = {upper[0], upper[1], dim == 3 ? upper[2] : 0};
   for (int k = lo[2]; k <= hi[2]; k++)
      for (int j = lo[1]; j <= hi[1]; j++)
         for (int i = lo[0]; i <= hi[0]; i++) {
            int f[3] = {i, j, k}, n[3] = {i, j, k};
            f[d] += up ? 0 : 1;
            n[d] += up ? -1 : 1;
            double a = A(f[0], f[1], f[2]), b = B(f[0], f[1], f[2]);
            double den = 2 * b + h[d] * a, k0 = 2 * h[d] / den, k1 = (2 * b - h[d] * a) / den;
            double& of = o(f[0], f[1], f[2]);
            D(n[0], n[1], n[2]) += k1 * of;
            K(f[0], f[1], f[2]) = k0 * of;
            of = 0.;
         }
}
void adjustrhs(int dim, const Arr& R, const Arr& K, const Arr& G, const int* lower, const int* upper, int location)
{
   int d = location / 2, up = location % 2;
   int lo[3] = {lower[0], lower[1], dim == 3 ? lower[2] : 0}, hi[3] = {upper[0], upper[1], dim == 3 ? upper[2] : 0};
   for (int k = lo[2]; k <= hi[2]; k++)
      for (int j = lo[1]; j <= hi[1]; j++)
         for (int i = lo[0]; i <= hi[0]; i++) {
            int f[3] = {i, j, k}, n[3] = {i, j, k};
            f[d] += up ? 0 : 1;
            n[d] += up ? -1 : 1;
            R(n[0], n[1], n[2]) -= K(f[0], f[1], f[2]) * G(f[0], f[1], f[2]);
         }
}
// flux = D * grad on the sides of a box
void compflux(int dim, double* const* flux, const int* fg, double D, const double* u, const int* ug, const int* lo,
              const int* up, const double* dx)
{
   Arr U = arr3(u, lo[0] - ug[0], up[0] + ug[0], lo[1] - ug[1], up[1] + ug[1], dim == 3 ? lo[2] - ug[2] : 0,
                dim == 3 ? up[2] + ug[2] : 0);
   for (int d = 0; d < dim; d++) {
      Arr F = arr3(flux[d], lo[0] - fg[0], up[0] + fg[0], lo[1] - fg[1], up[1] + fg[1], dim == 3 ? lo[2] - fg[2] : 0,
                   dim == 3 ? up[2] + fg[2] : 0);
      F.n[d]++;
      int hi[3] = {up[0], up[1], dim == 3 ? up[2] : 0};
      hi[d]++;
      for (int k = dim == 3 ? lo[2] : 0; k <= hi[2]; k++)
         for (int j = lo[1]; j <= hi[1]; j++)
            for (int i = lo[0]; i <= hi[0]; i++)
               F(i, j, k) = D * (U(i, j, k) - U(i - (d == 0), j - (d == 1), k - (d == 2))) / dx[d];
   }
}
}
#define I2 const int *i0, const int *i1, const int *j0, const int *j1
#define I3 I2, const int *k0, const int *k1
extern "C" {
#define COMPDIAG(NAME, T, CARG, CVAL)                                                                                  \
   void NAME##2d_(double* diag, CARG const double* oi, const double* oj, I2, const double* cs, const double* ds)       \
   {                                                                                                                  \
      const double* off[3] = {oi, oj, 0};                                                                             \
      int lo[3] = {*i0, *j0, 0}, up[3] = {*i1, *j1, 0};                                                               \
      compdiag(2, diag, CVAL, T, off, lo, up, *cs, *ds);                                                              \
   }                                                                                                                  \
   void NAME##3d_(double* diag, CARG const double* oi, const double* oj, const double* ok, I3, const double* cs,       \
                  const double* ds)                                                                                   \
   {                                                                                                                  \
      const double* off[3] = {oi, oj, ok};                                                                            \
      int lo[3] = {*i0, *j0, *k0}, up[3] = {*i1, *j1, *k1};                                                           \
      compdiag(3, diag, CVAL, T, off, lo, up, *cs, *ds);                                                              \
   }
#define CARGS const double *c,
COMPDIAG(compdiagvariablec, 2, CARGS, c)
COMPDIAG(compdiagscalarc, 1, CARGS, c)
COMPDIAG(compdiagzeroc, 0, , 0)

void adjbdry2d_(double* diag, const double* oi, const double* oj, I2, const double* a, const double* b, const int* a0,
                const int* a1, const int* b0, const int* b1, double* K, const int* c0, const int* c1, const int* d0,
                const int* d1, const int* lower, const int* upper, const int* location, const double* h)
{
   const double* off[3] = {oi, oj, 0};
   int lo[3] = {*i0, *j0, 0}, up[3] = {*i1, *j1, 0};
   adjbdry(2, diag, off, lo, up, arr2(a, *a0, *a1, *b0, *b1), arr2(b, *a0, *a1, *b0, *b1), arr2(K, *c0, *c1, *d0, *d1),
           lower, upper, *location, h);
}
void adjbdry3d_(double* diag, const double* oi, const double* oj, const double* ok, I3, const double* a, const double* b,
                const int* a0, const int* a1, const int* b0, const int* b1, const int* e0, const int* e1, double* K,
                const int* c0, const int* c1, const int* d0, const int* d1, const int* f0, const int* f1,
                const int* lower, const int* upper, const int* location, const double* h)
{
   const double* off[3] = {oi, oj, ok};
   int lo[3] = {*i0, *j0, *k0}, up[3] = {*i1, *j1, *k1};
   adjbdry(3, diag, off, lo, up, arr3(a, *a0, *a1, *b0, *b1, *e0, *e1), arr3(b, *a0, *a1, *b0, *b1, *e0, *e1),
           arr3(K, *c0, *c1, *d0, *d1, *f0, *f1), lower, upper, *location, h);
}
void adjustrhs2d_(double* rhs, I2, const double* K, const int* c0, const int* c1, const int* d0, const int* d1,
                  const double* g, const int* a0, const int* a1, const int* b0, const int* b1, const int* lower,
                  const int* upper, const int* location)
{
   adjustrhs(2, arr2(rhs, *i0, *i1, *j0, *j1), arr2(K, *c0, *c1, *d0, *d1), arr2(g, *a0, *a1, *b0, *b1), lower, upper,
             *location);
}
void adjustrhs3d_(double* rhs, I3, const double* K, const int* c0, const int* c1, const int* d0, const int* d1,
                  const int* f0, const int* f1, const double* g, const int* a0, const int* a1, const int* b0,
                  const int* b1, const int* e0, const int* e1, const int* lower, const int* upper, const int* location)
{
   adjustrhs(3, arr3(rhs, *i0, *i1, *j0, *j1, *k0, *k1), arr3(K, *c0, *c1, *d0, *d1, *f0, *f1),
             arr3(g, *a0, *a1, *b0, *b1, *e0, *e1), lower, upper, *location);
}
void compfluxcondc2d_(double* fx, double* fy, const int* fgi, const int* fgj, const double& D, const double* u,
                      const int* ugi, const int* ugj, I2, const double* dx)
{
   double* f[3] = {fx, fy, 0};
   int fg[3] = {*fgi, *fgj, 0}, ug[3] = {*ugi, *ugj, 0}, lo[3] = {*i0, *j0, 0}, up[3] = {*i1, *j1, 0};
   compflux(2, f, fg, D, u, ug, lo, up, dx);
}
void compfluxcondc3d_(double* fx, double* fy, double* fz, const int* fgi, const int* fgj, const int* fgk,
                      const double& D, const double* u, const int* ugi, const int* ugj, const int* ugk, I3,
                      const double* dx)
{
   double* f[3] = {fx, fy, fz};
   int fg[3] = {*fgi, *fgj, *fgk}, ug[3] = {*ugi, *ugj, *ugk}, lo[3] = {*i0, *j0, *k0}, up[3] = {*i1, *j1, *k1};
   compflux(3, f, fg, D, u, ug, lo, up, dx);
}
}
