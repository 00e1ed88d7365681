// C23: singular velocity fields near contact
// o: values of the functions (verifier and replay); fd: finite differences of the velocity (replay only)
#include <cafes.hpp>
using namespace cafes::singularity;
#define ARGS double H, double M, double a, double U, double l, double e
#define CALL H, M, a, U, l, e, nullptr
template<class P, class F> static double fdiff(F f, P X, int d, ARGS)
{
  double h = 2e-4, v[4];
  for (int k = 0; k < 4; ++k) { P Q = X; Q[d] += h * (k < 2 ? k - 2 : k - 1); v[k] = f(Q, CALL); }
  return (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h);
}
#ifdef CAFES_VC_NATIVE
#define FD(k, F, d) fd[k] = fdiff(F, X, d, H, M, a, U, l, e);
#else
#define FD(k, F, d)
#endif
#define V(k, F) o[k] = F(X, CALL);
#define FIELD2(N) \
  V(0, ux_sing_##N) V(1, uz_sing_##N) V(2, dxux_sing_##N) V(3, dzux_sing_##N) V(4, dxuz_sing_##N) V(5, dzuz_sing_##N) \
  FD(0, ux_sing_##N, 0) FD(1, ux_sing_##N, 1) FD(2, uz_sing_##N, 0) FD(3, uz_sing_##N, 1)
#define FIELD3(N) FIELD3V(N) FIELD3D(N)
#define FIELD3V(N) \
  V(0, ux_sing_##N) V(1, uy_sing_##N) V(2, uz_sing_##N) \
  V(3, dxux_sing_##N) V(4, dyux_sing_##N) V(5, dzux_sing_##N) V(6, dxuy_sing_##N) V(7, dyuy_sing_##N) V(8, dzuy_sing_##N) V(9, dxuz_sing_##N) V(10, dyuz_sing_##N) V(11, dzuz_sing_##N)
#define FIELD3D(N) \
  FD(0, ux_sing_##N, 0) FD(1, ux_sing_##N, 1) FD(2, ux_sing_##N, 2) FD(3, uy_sing_##N, 0) FD(4, uy_sing_##N, 1) FD(5, uy_sing_##N, 2) FD(6, uz_sing_##N, 0) FD(7, uz_sing_##N, 1) FD(8, uz_sing_##N, 2)
extern "C" {
void n2(double x, double y, ARGS, double *o, double *fd) { position2d X{x, y}; FIELD2(normalMvt2D) }
void t2(double x, double y, ARGS, double *o, double *fd) { position2d X{x, y}; FIELD2(tangMvt2D) }
void n3(double x, double y, double z, ARGS, double *o, double *fd) { position3d X{x, y, z}; FIELD3(normalMvt3D) }
// on the axis and on the ray y = 0, x > 0
void n3a(double x, double z, ARGS, double *o, double *b) { { position3d X{x, 0., z}; FIELD3V(normalMvt3D) } { o = b; position3d X{0., 0., z}; FIELD3V(normalMvt3D) } }
void t3a(double x, double z, ARGS, double *o, double *b) { { position3d X{x, 0., z}; FIELD3V(tangMvt3D) } { o = b; position3d X{0., 0., z}; FIELD3V(tangMvt3D) } }
void t3(double x, double y, double z, ARGS, double *o, double *fd) { position3d X{x, y, z}; FIELD3(tangMvt3D) }
}
