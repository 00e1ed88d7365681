// C03: elementary matrices, flattened with the first index slowest
#include <cafes.hpp>
static double *flat(double const &x, double *o) { *o = x; return o + 1; }
template<class T, std::size_t N> static double *flat(std::array<T, N> const &x, double *o) { for (std::size_t i = 0; i < N; ++i) o = flat(x[i], o); return o; }
extern "C" {
void Laplacian_2(double const *h, double *o) { std::array<double, 2> hh{{h[0], h[1]}}; flat(getMatElemLaplacian(hh), o); }
void LaplacianA_2(double const *h, double *o) { std::array<double, 2> hh{{h[0], h[1]}}; flat(getMatElemLaplacianA(hh), o); }
void StrainTensor_2(double const *h, double *o) { std::array<double, 2> hh{{h[0], h[1]}}; flat(getMatElemStrainTensor(hh), o); }
void StrainTensorA_2(double const *h, double *o) { std::array<double, 2> hh{{h[0], h[1]}}; flat(getMatElemStrainTensorA(hh), o); }
void Pressure_2(double const *h, double *o) { std::array<double, 2> hh{{h[0], h[1]}}; flat(getMatElemPressure(hh), o); }
void PressureA_2(double const *h, double *o) { std::array<double, 2> hh{{h[0], h[1]}}; flat(getMatElemPressureA(hh), o); }
void PressureAT_2(double const *h, double *o) { std::array<double, 2> hh{{h[0], h[1]}}; flat(getMatElemPressureAT(hh), o); }
void Mass_2(double const *h, double *o) { std::array<double, 2> hh{{h[0], h[1]}}; flat(getMatElemMass(hh), o); }
void MassA_2(double const *h, double *o) { std::array<double, 2> hh{{h[0], h[1]}}; flat(getMatElemMassA(hh), o); }
void Laplacian_3(double const *h, double *o) { std::array<double, 3> hh{{h[0], h[1], h[2]}}; flat(getMatElemLaplacian(hh), o); }
void StrainTensor_3(double const *h, double *o) { std::array<double, 3> hh{{h[0], h[1], h[2]}}; flat(getMatElemStrainTensor(hh), o); }
void Pressure_3(double const *h, double *o) { std::array<double, 3> hh{{h[0], h[1], h[2]}}; flat(getMatElemPressure(hh), o); }
void Mass_3(double const *h, double *o) { std::array<double, 3> hh{{h[0], h[1], h[2]}}; flat(getMatElemMass(hh), o); }
}
