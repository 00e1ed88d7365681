// MPI_Allreduce with MPI_SUM, in place: this process's values plus the given sums over the other processes,
// one array per buffer (vc_at), or per call in the order of the calls.
#pragma once
#include <mpi.h>
static char vc_in_place;
#undef MPI_IN_PLACE
#define MPI_IN_PLACE ((void *)&vc_in_place)
static struct vc_mpi { int k; const double *other[8]; const int *iother[8]; int bad; void const *buf[2]; } MP;
static inline void vc_at(void const *a, void const *b) { MP.buf[0] = a; MP.buf[1] = b; }
static inline void vc_others(const double *a, const double *b = 0, const double *c = 0, const double *d = 0) { MP.k = 0; MP.bad = 0; MP.buf[0] = MP.buf[1] = 0; MP.other[0] = a; MP.other[1] = b; MP.other[2] = c; MP.other[3] = d; }
static inline int vc_allreduce_sum(void const *from, void *buf, int n, bool dbl, bool sum)
{
    if (from != MPI_IN_PLACE || !sum) { ++MP.bad; return 0; }
    int k = buf == MP.buf[0] ? 0 : buf == MP.buf[1] ? 1 : MP.k;
    ++MP.k;
    if (dbl) { auto o = MP.other[k]; auto p = (double *)buf; for (int i = 0; i < n; ++i) p[i] += o[i]; }
    else { auto o = MP.iother[k]; auto p = (int *)buf; for (int i = 0; i < n; ++i) p[i] += o[i]; }
    return 0;
}
#define MPI_Allreduce(from, to, n, type, op, comm) vc_allreduce_sum(from, to, n, (type) == MPI_DOUBLE, (op) == MPI_SUM)
