// extern "C" entry points for the SAMRAI-free C++ of the ampe executable.
#include "AMPE_internal.h"
#include "ArrayOperation.h"
#include "TiltingFolchPlapp2005.h"
#include "TiltingMoelans2011.h"

template <class T>
static double tilt(int w, double a, double b, double c)
{
   return w == 0 ? T::g0(a, b, c) : w == 1 ? T::dg0dp0(a, b, c) : T::dg0dp1(a, b, c);
}

extern "C" {
double vf_folch(int w, double a, double b, double c)
{
   return tilt<TiltingFolchPlapp2005>(w, a, b, c);
}
double vf_moelans(int w, double a, double b, double c)
{
   return tilt<TiltingMoelans2011>(w, a, b, c);
}
void vf_weights(double a, double b, double c, double* w)
{
   computeWeights3Pairs(a, b, c, w[0], w[1], w[2]);
}
void vf_multiply(double* d, const double* s, int n)
{
   MultiplyOperation<double> op;
   for (int i = 0; i < n; i++) op(d[i], s[i]);
}
void vf_add(double* d, const double* s, int n)
{
   AddOperation<double> op;
   for (int i = 0; i < n; i++) op(d[i], s[i]);
}
void vf_multiplyi(int* d, const int* s, int n)
{
   MultiplyOperation<int> op;
   for (int i = 0; i < n; i++) op(d[i], s[i]);
}
void vf_addi(int* d, const int* s, int n)
{
   AddOperation<int> op;
   for (int i = 0; i < n; i++) op(d[i], s[i]);
}
}
