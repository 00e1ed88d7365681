// C22: truncation functions
#include <cafes.hpp>
using namespace cafes::singularity;
extern "C" {
double alpha0(double x) { return alphaTrunc(x); }
double alpha1(double x) { return dalphaTrunc(x); }
double alpha2(double x) { return d2alphaTrunc(x); }
double alpha3(double x) { return d3alphaTrunc(x); }
double alpha4(double x) { return d4alphaTrunc(x); }
double chi0(double x, double l, double e) { return chiTrunc(x, l, e); }
double chi1(double x, double l, double e) { return dchiTrunc(x, l, e); }
double chi2(double x, double l, double e) { return d2chiTrunc(x, l, e); }
double chi3(double x, double l, double e) { return d3chiTrunc(x, l, e); }
double chi4(double x, double l, double e) { return d4chiTrunc(x, l, e); }
void mono(double x, double y, double l, double e, double *o) { o[0] = chiTrunc(x, l, e); o[1] = chiTrunc(y, l, e); }
}
