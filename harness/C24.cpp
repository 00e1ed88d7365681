// C24: interpolation on a refined mesh
#include <petsc.h>
#include "petsc_stub.hpp"
#undef PETSC_COMM_WORLD
#define PETSC_COMM_WORLD MPI_COMM_WORLD
// a Vec is its array; a local vector that has not received the global values has none to read
struct _p_Vec { void *a; int got; };
static struct vc_state
{
    _p_DM dav, dap, dm, fv, fp, fdm, clone; _p_Vec cv, cp, sol, lcv, lcp, fgv, fgp, fsol, lfv, lfp;
    int fac[2][2], refined[2], added[2], nadd, order, g2l[2], l2g[2], nbox, box[2][4], ready[2], done[2], pos[2][2];
} W;
extern "C" {
PetscErrorCode PetscObjectTypeCompare(PetscObject o, const char[], PetscBool *b) { *b = ((DM)o)->composite ? PETSC_TRUE : PETSC_FALSE; return PETSC_SUCCESS; }
PetscErrorCode DMCompositeGetAccessArray(DM dm, Vec v, PetscInt n, const PetscInt *e, Vec *o)
{ for (int i = 0; i < n; ++i) o[i] = dm == &W.fdm ? (e[i] ? &W.fgp : &W.fgv) : (e[i] ? &W.cp : &W.cv); return PETSC_SUCCESS; }
PetscErrorCode DMCompositeRestoreAccessArray(DM, Vec, PetscInt, const PetscInt *, Vec *) { return PETSC_SUCCESS; }
PetscErrorCode DMGetLocalVector(DM dm, Vec *v) { *v = dm == &W.dav ? &W.lcv : dm == &W.dap ? &W.lcp : dm == &W.fv ? &W.lfv : &W.lfp; return PETSC_SUCCESS; }
PetscErrorCode DMRestoreLocalVector(DM, Vec *) { return PETSC_SUCCESS; }
PetscErrorCode DMDAVecGetArrayDOF(DM, Vec v, void *a) { *(void **)a = v->a; return PETSC_SUCCESS; }
PetscErrorCode DMDAVecGetArrayDOFRead(DM, Vec v, void *a) { *(void **)a = v->a; return PETSC_SUCCESS; }
PetscErrorCode DMDAVecRestoreArrayDOF(DM, Vec, void *) { return PETSC_SUCCESS; }
PetscErrorCode DMDAVecRestoreArrayDOFRead(DM, Vec, void *) { return PETSC_SUCCESS; }
PetscErrorCode DMGlobalToLocalBegin(DM, Vec, InsertMode, Vec) { return PETSC_SUCCESS; }
PetscErrorCode DMGlobalToLocalEnd(DM dm, Vec g, InsertMode m, Vec l)
{ int p = dm == &W.dap; W.g2l[p] += m == INSERT_VALUES && g == (p ? &W.cp : &W.cv) && l == (p ? &W.lcp : &W.lcv); return PETSC_SUCCESS; }
PetscErrorCode DMLocalToGlobalBegin(DM, Vec, InsertMode, Vec) { return PETSC_SUCCESS; }
PetscErrorCode DMLocalToGlobalEnd(DM dm, Vec l, InsertMode m, Vec g)
{ int p = dm == &W.fp; W.l2g[p] += m == INSERT_VALUES && g == (p ? &W.fgp : &W.fgv) && l == (p ? &W.lfp : &W.lfv); return PETSC_SUCCESS; }
PetscErrorCode DMClone(DM, DM *o) { *o = &W.clone; return PETSC_SUCCESS; }
PetscErrorCode DMDASetRefinementFactor(DM dm, PetscInt a, PetscInt b, PetscInt) { int p = dm == &W.dap; W.fac[p][0] = a; W.fac[p][1] = b; return PETSC_SUCCESS; }
PetscErrorCode DMRefine(DM dm, MPI_Comm, DM *o) { int p = dm == &W.dap; *o = p ? &W.fp : &W.fv; W.refined[p]++; return PETSC_SUCCESS; }
PetscErrorCode DMCompositeCreate(MPI_Comm, DM *o) { *o = &W.fdm; return PETSC_SUCCESS; }
PetscErrorCode DMCompositeAddDM(DM dm, DM a) { int p = a == &W.fp; W.added[p] = dm == &W.fdm ? ++W.nadd : 0; dm->sub[dm->ndm++] = a; return PETSC_SUCCESS; }
PetscErrorCode DMCreateGlobalVector(DM, Vec *v) { *v = &W.fsol; return PETSC_SUCCESS; }
}
#include <algorithm/iterate.hpp>
#include <fem/quadrature.hpp>
#include <particle/particle.hpp>
#include <particle/singularity/add_singularity.hpp>
// iterate by its contract (C04): the function is called once at each index of the box, here at an arbitrary one
template<class B, class K> static void vc_seen(B const &b)
{
    int p = W.nbox++; if (p > 1) return;
    for (int d = 0; d < 2; ++d) { W.box[p][d] = b.bottom_left[d]; W.box[p][2 + d] = b.upper_right[d]; }
    W.ready[p] = W.g2l[p]; W.done[p] = W.l2g[p];
}
#ifdef CAFES_VC_SYMBOLIC
namespace cafes { namespace algorithm {
template<class B, class K> static void vc_iterate(B const &b, K &&k)
{
    int p = W.nbox; vc_seen<B, K>(b); if (p > 1) return;
    geometry::position<int, 2> q{W.pos[p][0], W.pos[p][1]}; k(q);
}
} }
#define iterate vc_iterate
#endif
#include <posttraitement/interpolation.hpp>
#undef iterate
using namespace cafes;
// gp, gv: pressure and velocity meshes; r: factors; xv, xp: nodal values; yv, yp: refined values; pos: cell of each mesh
extern "C" int interp(const int *gp, const int *gv, const int *r, const double *h, double ***xv, double ***xp, double ***yv, double ***yp, const int *pos, int *log)
{
    W = vc_state{};
    vc_dm<2>(W.dav, gv); vc_dm<2>(W.dap, gp); vc_dm<2>(W.fv, gv); vc_dm<2>(W.fp, gp);
    W.dm.composite = 1; W.dm.ndm = 2; W.dm.sub[0] = &W.dav; W.dm.sub[1] = &W.dap; W.fdm.composite = 1;
    W.lcv.a = W.cv.a = xv; W.lcp.a = W.cp.a = xp; W.lfv.a = W.fgv.a = yv; W.lfp.a = W.fgp.a = yp;
    for (int p = 0; p < 2; ++p) for (int d = 0; d < 2; ++d) W.pos[p][d] = pos[2 * p + d];
    DM dm = &W.dm, dr = 0; Vec sol = &W.sol, sr = 0; std::array<int, 2> rr{{r[0], r[1]}}; std::array<double, 2> hh{{h[0], h[1]}};
    int err = posttraitement::linear_interpolation<2>(dm, sol, dr, sr, rr, hh);
    for (int p = 0; p < 2; ++p)
    {
        int *l = log + 12 * p;
        l[0] = W.fac[p][0]; l[1] = W.fac[p][1]; l[2] = W.refined[p]; l[3] = W.added[p]; l[4] = W.g2l[p]; l[5] = W.l2g[p];
        for (int k = 0; k < 4; ++k) l[6 + k] = W.box[p][k];
        l[10] = W.ready[p]; l[11] = W.done[p];
    }
    log[24] = dr == &W.fdm; log[25] = sr == &W.fsol; log[26] = W.nbox;
    return err;
}
