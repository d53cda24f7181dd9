// Executable model of the PETSc 3.19 / MPI calls that cafes makes, in terms of
// plain memory, so that cafes' own code can be executed symbolically over it.
// Ranks are fibers of the executor; global vectors and matrices live in shared
// memory, local vectors are per rank; every collective is a barrier, and the
// order in which ranks call collectives is checked (label "collective").
// The model is cross-validated against the installed PETSc on every replay and
// on the recorded traces of every run (see DESIGN.md).
#include <petsc.h>
#include <petscviewerhdf5.h>
#include <hx.h>
#include <symx.h>
#include <cstring>
#include <cstdlib>
#include <vector>

#define MAXR 8
static const int TAG_DMDA = 1, TAG_DMCOMP = 2;

extern "C" {
MPI_Comm PETSC_COMM_WORLD = (MPI_Comm)((void *)&(ompi_mpi_comm_world));
PetscBool PetscOptionsPublish = PETSC_FALSE;
}

static int nranks() { int n = sx_size(); return n < 1 ? 1 : n; }
static int me() { return nranks() == 1 ? 0 : sx_rank(); }

static int g_errors = 0;
static PetscErrorCode raise_err(int code) { ++g_errors; return (PetscErrorCode)code; }
extern "C" int hx_petsc_errors() { return g_errors; }

// ---------------------------------------------------------------- collectives
struct coll_entry { int kind; void *obj; long a, b; };
static coll_entry *g_coll = nullptr;
static int g_ncoll = 0, g_capcoll = 0;
static int g_pos[MAXR];
static coll_entry *coll(int kind, bool &first, long a = 0, long b = 0)
{
    int k = g_pos[me()]++;
    if (k < g_ncoll)
    {
        first = false;
        if (g_coll[k].kind != kind || g_coll[k].a != a || g_coll[k].b != b) sx_fail("collective");
        return &g_coll[k];
    }
    first = true;
    if (g_ncoll == g_capcoll)
    {
        int nc = g_capcoll ? 2 * g_capcoll : 64;
        coll_entry *n = (coll_entry *)malloc(nc * sizeof(coll_entry));
        for (int i = 0; i < g_ncoll; ++i) n[i] = g_coll[i];
        free(g_coll);
        g_coll = n;
        g_capcoll = nc;
    }
    g_coll[g_ncoll].kind = kind; g_coll[g_ncoll].obj = nullptr;
    g_coll[g_ncoll].a = a; g_coll[g_ncoll].b = b;
    return &g_coll[g_ncoll++];
}
static void collective(int kind, long a = 0, long b = 0)
{
    if (nranks() == 1) return;
    bool f;
    coll(kind, f, a, b);
    sx_barrier();
}

// ---------------------------------------------------------------- objects
enum { K_DM = 101, K_VEC, K_MAT, K_KSP, K_PC, K_NS, K_ISL, K_VIEWER };

struct _p_ISLocalToGlobalMapping { int kind; int n[MAXR]; int *idx[MAXR]; };
struct _p_MatNullSpace { int kind; PetscBool has_const; int n; Vec v[4]; };

struct _p_DM
{
    int kind, type, ref, setup;
    // DMDA
    int dim, dof, s;
    int M[3], m[3];
    DMBoundaryType b[3];
    int *l[3];       // ownership ranges
    int refine[3];
    DMDAStencilType st;
    // composite
    int nsub;
    DM sub[8];
    ISLocalToGlobalMapping ltog;
    const void *mattype;
    void *kspctx, *kspfn;
};
struct _p_Vec
{
    int kind;
    int local;         // 1: per-rank vector (one object per rank)
    int nr;            // ranks
    int n[MAXR];
    double *a[MAXR];
    DM dm;             // creating DM (may be null)
    int view, live;
    const char *name;
};
struct _p_PetscViewer { int kind; const char *file; };
// what was written: one entry per dataset, in natural (lexicographic) order
struct saved_set { const char *file, *name; int nd, dims[8]; double *a; };
static saved_set g_saved[16];
static int g_nsaved = 0;
struct _p_Mat
{
    int kind, type; // 1 aij 2 shell 3 nest
    int n[MAXR], off[MAXR], N;
    void *ctx[MAXR];
    void (*op_mult)(void);
    void (*op_diag)(void);
    DM dm;
    double **row; char **pres; int *dnz, *onz, *cd, *co;
    int prealloc;
    ISLocalToGlobalMapping rl, cl;
    Mat sub[4];
    MatNullSpace ns;
    int assembled;
};
struct _p_PC { int kind; const char *type; Mat A, P; int levels; void *ksp; KSP sub[2], smoother[32]; };
struct _p_KSP { int kind; const char *type, *prefix; DM dm; PC pc; Mat A, P; double rtol; };

template<class T> static T *znew()
{
    T *p = (T *)malloc(sizeof(T));
    memset((void *)p, 0, sizeof(T));
    return p;
}

// ---------------------------------------------------------------- DMDA geometry
struct ext { int s, n, gs, gn; };
static void rank_pos(DM dm, int r, int p[3])
{
    p[0] = r % dm->m[0];
    p[1] = (r / dm->m[0]) % dm->m[1];
    p[2] = r / (dm->m[0] * dm->m[1]);
}
static ext extent(DM dm, int d, int p)
{
    ext e;
    e.s = 0;
    for (int i = 0; i < p; ++i) e.s += dm->l[d][i];
    e.n = dm->l[d][p];
    if (d >= dm->dim) { e.gs = 0; e.gn = 1; return e; }
    int lo = e.s - dm->s, hi = e.s + e.n + dm->s;
    if (dm->b[d] != DM_BOUNDARY_PERIODIC)
    {
        if (lo < 0) lo = 0;
        if (hi > dm->M[d]) hi = dm->M[d];
    }
    e.gs = lo; e.gn = hi - lo;
    return e;
}
static int da_local_size(DM dm, int r)
{
    int p[3]; rank_pos(dm, r, p);
    return dm->dof * dm->l[0][p[0]] * dm->l[1][p[1]] * dm->l[2][p[2]];
}
static int da_ghost_size(DM dm, int r)
{
    int p[3]; rank_pos(dm, r, p);
    return dm->dof * extent(dm, 0, p[0]).gn * extent(dm, 1, p[1]).gn * extent(dm, 2, p[2]).gn;
}
// owner rank and offset (in nodes) of global node (i,j,k), already wrapped
static void owner(DM dm, const int g[3], int &r, int &off)
{
    int p[3], s[3], n[3];
    for (int d = 0; d < 3; ++d)
    {
        int acc = 0, q = 0;
        while (q < dm->m[d] - 1 && g[d] >= acc + dm->l[d][q]) acc += dm->l[d][q++];
        p[d] = q; s[d] = acc; n[d] = dm->l[d][q];
    }
    r = (p[2] * dm->m[1] + p[1]) * dm->m[0] + p[0];
    off = ((g[2] - s[2]) * n[1] + (g[1] - s[1])) * n[0] + (g[0] - s[0]);
}
static int wrap(DM dm, int d, int i)
{
    int M = dm->M[d];
    if (i < 0) return i + M;
    if (i >= M) return i - M;
    return i;
}
static void need_setup(DM dm) { if (dm->type == TAG_DMDA && !dm->setup) sx_fail("petsc-dm-not-set-up"); }

static DM new_da(int dim, DMBoundaryType bx, DMBoundaryType by, DMBoundaryType bz, DMDAStencilType st,
                 int M, int N, int P, int m, int n, int p, int dof, int s, const PetscInt *lx, const PetscInt *ly, const PetscInt *lz)
{
    bool first;
    coll_entry *c = coll(K_DM, first, M * 4096L + N, P * 4096L + dof);
    if (first)
    {
        DM dm = znew<_p_DM>();
        c->obj = dm;
        dm->kind = K_DM; dm->type = TAG_DMDA; dm->ref = 0;
        dm->dim = dim; dm->dof = dof; dm->s = s; dm->st = st;
        dm->M[0] = M; dm->M[1] = N; dm->M[2] = P;
        dm->m[0] = m; dm->m[1] = n; dm->m[2] = p;
        dm->b[0] = bx; dm->b[1] = by; dm->b[2] = bz;
        dm->refine[0] = dm->refine[1] = dm->refine[2] = 2;
        const PetscInt *L[3] = {lx, ly, lz};
        int np[3] = {m, n, p};
        for (int d = 0; d < 3; ++d)
            if (L[d] && np[d] > 0)
            {
                dm->l[d] = (int *)malloc(np[d] * sizeof(int));
                for (int i = 0; i < np[d]; ++i) dm->l[d][i] = L[d][i];
            }
    }
    DM dm = (DM)c->obj;
    if (!first && lx && m > 0) // every rank must pass the same decomposition
        for (int i = 0; i < m; ++i) if (dm->l[0] && dm->l[0][i] != lx[i]) sx_fail("collective");
    dm->ref++;
    return dm;
}
static PetscErrorCode da_setup(DM dm)
{
    if (dm->setup) return (PetscErrorCode)0;
    int size = nranks();
    long M = dm->M[0], N = dm->M[1], P = dm->M[2];
    int m = dm->m[0], n = dm->m[1], p = dm->m[2];
    if (size == 1) m = n = p = 1; // nothing to choose (also for symbolic sizes)
    if (dm->dim == 2)
    {
        p = 1;
        if (m == PETSC_DECIDE || n == PETSC_DECIDE)
        {
            if (n != PETSC_DECIDE) m = size / n;
            else if (m != PETSC_DECIDE) n = size / m;
            else
            {
                m = 0;
                while (m < size && (2L * (m + 1) - 1) * (2L * (m + 1) - 1) * N <= 4 * M * size) ++m; // more than size ranks never divides
                if (!m) m = 1;
                while (m > 0) { n = size / m; if (m * n == size) break; m--; }
                if (M > N && m < n) { int t = m; m = n; n = t; }
            }
        }
    }
    else
    {
        if (m == PETSC_DECIDE || n == PETSC_DECIDE || p == PETSC_DECIDE)
        {
            if (m != PETSC_DECIDE || n != PETSC_DECIDE || p != PETSC_DECIDE) sx_fail("unmodelled-dmda-partial-decide");
            n = 0;
            while ((2L * (n + 1) - 1) * (2L * (n + 1) - 1) * (2L * (n + 1) - 1) * P * M <= 8 * N * N * size) ++n;
            if (!n) n = 1;
            while (n > 0) { int pm = size / n; if (n * pm == size) break; n--; }
            if (!n) n = 1;
            m = 0;
            while ((2L * (m + 1) - 1) * (2L * (m + 1) - 1) * P * n <= 4 * M * size) ++m;
            if (!m) m = 1;
            while (m > 0) { p = size / (m * n); if (m * n * p == size) break; m--; }
            if (M > P && m < p) { int t = m; m = p; p = t; }
        }
    }
    m = sx_conc(m); n = sx_conc(n); p = sx_conc(p);
    if (m * n * p != size) return raise_err(63);
    if (M < m || N < n || (dm->dim == 3 && P < p)) return raise_err(63);
    dm->m[0] = m; dm->m[1] = n; dm->m[2] = p;
    for (int d = 0; d < 3; ++d)
    {
        int np = dm->m[d], MM = d < dm->dim ? dm->M[d] : 1;
        if (!dm->l[d])
        {
            dm->l[d] = (int *)malloc(np * sizeof(int));
            for (int i = 0; i < np; ++i) dm->l[d][i] = MM / np + ((MM % np) > i);
        }
        else
        {
            int sum = 0;
            for (int i = 0; i < np; ++i) sum += dm->l[d][i];
            if (sum != MM) return raise_err(75);
        }
        for (int i = 0; i < np; ++i)
            if (d < dm->dim && np > 1 && dm->l[d][i] < dm->s) return raise_err(63);
    }
    dm->setup = 1;
    return (PetscErrorCode)0;
}

extern "C" {
PetscErrorCode DMDACreate2d(MPI_Comm, DMBoundaryType bx, DMBoundaryType by, DMDAStencilType st, PetscInt M, PetscInt N, PetscInt m, PetscInt n, PetscInt dof, PetscInt s, const PetscInt lx[], const PetscInt ly[], DM *da)
{
    *da = new_da(2, bx, by, DM_BOUNDARY_NONE, st, M, N, 1, m, n, 1, dof, s, lx, ly, nullptr);
    return (PetscErrorCode)0;
}
PetscErrorCode DMDACreate3d(MPI_Comm, DMBoundaryType bx, DMBoundaryType by, DMBoundaryType bz, DMDAStencilType st, PetscInt M, PetscInt N, PetscInt P, PetscInt m, PetscInt n, PetscInt p, PetscInt dof, PetscInt s, const PetscInt lx[], const PetscInt ly[], const PetscInt lz[], DM *da)
{
    *da = new_da(3, bx, by, bz, st, M, N, P, m, n, p, dof, s, lx, ly, lz);
    return (PetscErrorCode)0;
}
PetscErrorCode DMSetUp(DM dm) { return dm->type == TAG_DMDA ? da_setup(dm) : (PetscErrorCode)0; }
PetscErrorCode DMSetFromOptions(DM) { return (PetscErrorCode)0; }
PetscErrorCode DMSetMatType(DM dm, MatType t) { dm->mattype = t; return (PetscErrorCode)0; }
PetscErrorCode DMDASetFieldName(DM, PetscInt, const char[]) { return (PetscErrorCode)0; }
PetscErrorCode DMDASetRefinementFactor(DM dm, PetscInt x, PetscInt y, PetscInt z) { if (x > 0) dm->refine[0] = x; if (y > 0) dm->refine[1] = y; if (z > 0) dm->refine[2] = z; return (PetscErrorCode)0; }
PetscErrorCode DMDestroy(DM *dm) { if (*dm) (*dm)->ref--; *dm = nullptr; return (PetscErrorCode)0; }
PetscErrorCode DMDAGetInfo(DM da, PetscInt *dim, PetscInt *M, PetscInt *N, PetscInt *P, PetscInt *m, PetscInt *n, PetscInt *p, PetscInt *dof, PetscInt *s, DMBoundaryType *bx, DMBoundaryType *by, DMBoundaryType *bz, DMDAStencilType *st)
{
    if (dim) *dim = da->dim;
    if (M) *M = da->M[0];
    if (N) *N = da->M[1];
    if (P) *P = da->M[2];
    if (m) *m = da->m[0];
    if (n) *n = da->m[1];
    if (p) *p = da->m[2];
    if (dof) *dof = da->dof;
    if (s) *s = da->s;
    if (bx) *bx = da->b[0];
    if (by) *by = da->b[1];
    if (bz) *bz = da->b[2];
    if (st) *st = da->st;
    return (PetscErrorCode)0;
}
PetscErrorCode DMDAGetLocalInfo(DM da, DMDALocalInfo *info)
{
    need_setup(da);
    int p[3]; rank_pos(da, me(), p);
    ext x = extent(da, 0, p[0]), y = extent(da, 1, p[1]), z = extent(da, 2, p[2]);
    info->da = da; info->dim = da->dim; info->dof = da->dof; info->sw = da->s;
    info->mx = da->M[0]; info->my = da->M[1]; info->mz = da->dim == 3 ? da->M[2] : 1;
    info->xs = x.s; info->xm = x.n; info->ys = y.s; info->ym = y.n; info->zs = z.s; info->zm = z.n;
    info->gxs = x.gs; info->gxm = x.gn; info->gys = y.gs; info->gym = y.gn; info->gzs = z.gs; info->gzm = z.gn;
    info->bx = da->b[0]; info->by = da->b[1]; info->bz = da->b[2];
    info->st = da->st;
    return (PetscErrorCode)0;
}
PetscErrorCode DMDAGetOwnershipRanges(DM da, const PetscInt *lx[], const PetscInt *ly[], const PetscInt *lz[])
{
    need_setup(da);
    if (lx) *lx = da->l[0];
    if (ly) *ly = da->l[1];
    if (lz) *lz = da->l[2];
    return (PetscErrorCode)0;
}
static PetscErrorCode rescale(DM dm, DM *out, bool refine)
{
    need_setup(dm);
    int M[3], *l[3] = {nullptr, nullptr, nullptr};
    for (int d = 0; d < 3; ++d)
    {
        int f = dm->refine[d];
        if (d >= dm->dim) { M[d] = 1; continue; }
        bool per = dm->b[d] == DM_BOUNDARY_PERIODIC;
        if (refine) M[d] = per ? f * dm->M[d] : 1 + f * (dm->M[d] - 1);
        else M[d] = per ? dm->M[d] / f : 1 + (dm->M[d] - 1) / f;
        l[d] = (int *)malloc(dm->m[d] * sizeof(int));
        int tot = 0;
        if (refine)
        {
            // evenly, as long as the coarse points around the first and last
            // fine point of a process are within its coarse ghosts
            int m = dm->m[d], remaining = M[d], startc = 0, startf = 0;
            for (int i = 0; i < m; ++i)
            {
                int want = remaining / (m - i) + (remaining % (m - i) ? 1 : 0);
                if (f == 1) want = dm->l[d][i];
                else if (i < m - 1)
                {
                    int nextc = startc + dm->l[d][i];
                    while ((startf + want) / f < nextc - dm->s) ++want;
                    while ((startf + want - 1 + f - 1) / f > nextc - 1 + dm->s) --want;
                }
                l[d][i] = want;
                startc += dm->l[d][i]; startf += want; remaining -= want; tot += want;
            }
        }
        else
        {
            int start = 0, cs = 0; // coarse points are those fine points divisible by f
            for (int i = 0; i < dm->m[d]; ++i)
            {
                int c0 = (start + f - 1) / f;
                start += dm->l[d][i];
                int c1 = (start + f - 1) / f;
                if (c1 > M[d]) c1 = M[d];
                l[d][i] = c1 - c0; tot += l[d][i];
            }
        }
        if (tot != M[d]) sx_fail("unmodelled-dm-refine");
    }
    *out = new_da(dm->dim, dm->b[0], dm->b[1], dm->b[2], dm->st, M[0], M[1], M[2], dm->m[0], dm->m[1], dm->m[2], dm->dof, dm->s, l[0], l[1], l[2]);
    return da_setup(*out);
}
PetscErrorCode DMRefine(DM dm, MPI_Comm, DM *out) { return rescale(dm, out, true); }
PetscErrorCode DMCoarsen(DM dm, MPI_Comm, DM *out) { return rescale(dm, out, false); }
PetscErrorCode DMClone(DM dm, DM *out) { *out = dm; dm->ref++; return (PetscErrorCode)0; }

// ---------------------------------------------------------------- composite
PetscErrorCode DMCompositeCreate(MPI_Comm, DM *packer)
{
    bool first;
    coll_entry *c = coll(K_DM, first, -1);
    if (first) { DM d = znew<_p_DM>(); d->kind = K_DM; d->type = TAG_DMCOMP; d->setup = 1; c->obj = d; }
    *packer = (DM)c->obj;
    return (PetscErrorCode)0;
}
static int g_added[MAXR]; // unused when single rank
PetscErrorCode DMCompositeAddDM(DM dmc, DM dm)
{
    need_setup(dm);
    for (int i = 0; i < dmc->nsub; ++i) if (dmc->sub[i] == dm) return (PetscErrorCode)0; // other ranks
    dmc->sub[dmc->nsub++] = dm;
    dm->ref++;
    return (PetscErrorCode)0;
}
PetscErrorCode DMCompositeGetNumberDM(DM dm, PetscInt *n) { *n = dm->nsub; return (PetscErrorCode)0; }
PetscErrorCode DMCompositeGetEntriesArray(DM dm, DM a[]) { for (int i = 0; i < dm->nsub; ++i) a[i] = dm->sub[i]; return (PetscErrorCode)0; }
PetscErrorCode DMCompositeGetEntries(DM dm, ...)
{
    va_list ap; va_start(ap, dm);
    for (int i = 0; i < dm->nsub; ++i) { DM *p = va_arg(ap, DM *); if (p) *p = dm->sub[i]; }
    va_end(ap);
    return (PetscErrorCode)0;
}
static int dm_local_size(DM dm, int r)
{
    if (dm->type == TAG_DMDA) return da_local_size(dm, r);
    int n = 0;
    for (int i = 0; i < dm->nsub; ++i) n += da_local_size(dm->sub[i], r);
    return n;
}
static Vec view_of(DM dm, Vec v, int entry)
{
    Vec s = znew<_p_Vec>();
    s->kind = K_VEC; s->nr = v->nr; s->dm = dm->sub[entry]; s->view = 1; s->live = 1;
    for (int r = 0; r < v->nr; ++r)
    {
        int off = 0;
        for (int i = 0; i < entry; ++i) off += da_local_size(dm->sub[i], r);
        s->a[r] = v->a[r] + off;
        s->n[r] = da_local_size(dm->sub[entry], r);
    }
    return s;
}
PetscErrorCode DMCompositeGetAccessArray(DM dm, Vec v, PetscInt n, const PetscInt *w, Vec *out)
{
    for (int i = 0; i < n; ++i) out[i] = view_of(dm, v, w ? w[i] : i);
    return (PetscErrorCode)0;
}
PetscErrorCode DMCompositeRestoreAccessArray(DM, Vec, PetscInt n, const PetscInt *, Vec *vs) { for (int i = 0; i < n; ++i) vs[i]->live = 0; return (PetscErrorCode)0; }
PetscErrorCode DMCompositeGetAccess(DM dm, Vec v, ...)
{
    va_list ap; va_start(ap, v);
    for (int i = 0; i < dm->nsub; ++i) { Vec *p = va_arg(ap, Vec *); if (p) *p = view_of(dm, v, i); }
    va_end(ap);
    return (PetscErrorCode)0;
}
PetscErrorCode DMCompositeRestoreAccess(DM, Vec, ...) { return (PetscErrorCode)0; }

// ---------------------------------------------------------------- vectors
static int g_stale = 0;
static Vec new_global(DM dm, int kind)
{
    need_setup(dm);
    bool first;
    coll_entry *c = coll(K_VEC, first, (long)dm, kind);
    if (first)
    {
        Vec v = znew<_p_Vec>();
        v->kind = K_VEC; v->nr = nranks(); v->dm = dm; v->live = 1;
        int id = g_stale++, q = 0;
        for (int r = 0; r < v->nr; ++r)
        {
            v->n[r] = dm_local_size(dm, r);
            v->a[r] = (double *)malloc(v->n[r] * sizeof(double) + 1);
            for (int i = 0; i < v->n[r]; ++i, ++q) v->a[r][i] = kind ? sx_real("stale", id, q, 0) : 0.;
        }
        c->obj = v;
    }
    return (Vec)c->obj;
}
static Vec like(Vec w)
{
    bool first;
    coll_entry *c = coll(K_VEC, first, (long)w, 2);
    if (first)
    {
        Vec v = znew<_p_Vec>();
        v->kind = K_VEC; v->nr = w->nr; v->dm = w->dm; v->live = 1;
        for (int r = 0; r < v->nr; ++r)
        {
            v->n[r] = w->n[r];
            v->a[r] = (double *)malloc(v->n[r] * sizeof(double) + 1);
            for (int i = 0; i < v->n[r]; ++i) v->a[r][i] = 0.;
        }
        c->obj = v;
    }
    return (Vec)c->obj;
}
static Vec by_sizes(int nlocal)
{
    // MPI vector given the local size of the calling rank
    bool first;
    coll_entry *c = coll(K_VEC, first, -7, 0);
    if (first) { Vec v = znew<_p_Vec>(); v->kind = K_VEC; v->nr = nranks(); v->live = 1; c->obj = v; }
    Vec v = (Vec)c->obj;
    int r = me();
    v->n[r] = nlocal;
    v->a[r] = (double *)malloc(nlocal * sizeof(double) + 1);
    for (int i = 0; i < nlocal; ++i) v->a[r][i] = 0.;
    if (nranks() > 1) sx_barrier();
    return v;
}
PetscErrorCode DMCreateGlobalVector(DM dm, Vec *v) { *v = new_global(dm, 0); return (PetscErrorCode)0; }
PetscErrorCode DMGetGlobalVector(DM dm, Vec *v) { *v = new_global(dm, 1); return (PetscErrorCode)0; }
PetscErrorCode DMRestoreGlobalVector(DM, Vec *v) { *v = nullptr; return (PetscErrorCode)0; }
static int g_lstale = 0;
PetscErrorCode DMGetLocalVector(DM dm, Vec *out)
{
    need_setup(dm);
    Vec v = znew<_p_Vec>();
    v->kind = K_VEC; v->local = 1; v->nr = nranks(); v->dm = dm; v->live = 1;
    int r = me();
    v->n[r] = da_ghost_size(dm, r);
    v->a[r] = (double *)malloc(v->n[r] * sizeof(double));
    int id = g_lstale++;
    for (int i = 0; i < v->n[r]; ++i) v->a[r][i] = sx_real("lstale", id, i, 0);
    *out = v;
    return (PetscErrorCode)0;
}
PetscErrorCode DMCreateLocalVector(DM dm, Vec *out)
{
    DMGetLocalVector(dm, out);
    int r = me();
    for (int i = 0; i < (*out)->n[r]; ++i) (*out)->a[r][i] = 0.;
    return (PetscErrorCode)0;
}
PetscErrorCode DMRestoreLocalVector(DM, Vec *v) { (*v)->live = 0; *v = nullptr; return (PetscErrorCode)0; }
PetscErrorCode VecDuplicate(Vec w, Vec *v) { *v = like(w); return (PetscErrorCode)0; }
PetscErrorCode VecDestroy(Vec *v) { *v = nullptr; return (PetscErrorCode)0; }
PetscErrorCode VecSet(Vec v, PetscScalar x) { int r = me(); for (int i = 0; i < v->n[r]; ++i) v->a[r][i] = x; return (PetscErrorCode)0; }
PetscErrorCode VecScale(Vec v, PetscScalar x) { int r = me(); for (int i = 0; i < v->n[r]; ++i) v->a[r][i] *= x; return (PetscErrorCode)0; }
PetscErrorCode VecCopy(Vec x, Vec y) { int r = me(); if (x->n[r] != y->n[r]) return raise_err(60); for (int i = 0; i < x->n[r]; ++i) y->a[r][i] = x->a[r][i]; return (PetscErrorCode)0; }
PetscErrorCode VecAXPY(Vec y, PetscScalar a, Vec x) { int r = me(); if (x->n[r] != y->n[r]) return raise_err(60); for (int i = 0; i < x->n[r]; ++i) y->a[r][i] += a * x->a[r][i]; return (PetscErrorCode)0; }
PetscErrorCode VecGetArray(Vec v, PetscScalar **a) { *a = v->a[me()]; return (PetscErrorCode)0; }
PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar **a) { *a = v->a[me()]; return (PetscErrorCode)0; }
PetscErrorCode VecRestoreArray(Vec, PetscScalar **a) { *a = nullptr; return (PetscErrorCode)0; }
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar **a) { *a = nullptr; return (PetscErrorCode)0; }
PetscErrorCode VecGetLocalSize(Vec v, PetscInt *n) { *n = v->n[me()]; return (PetscErrorCode)0; }
PetscErrorCode VecGetSize(Vec v, PetscInt *n) { int s = 0; for (int r = 0; r < v->nr; ++r) s += v->n[r]; *n = s; return (PetscErrorCode)0; }
PetscErrorCode VecNormalize(Vec v, PetscReal *val)
{
    collective(21, (long)v);
    double s = 0;
    for (int r = 0; r < v->nr; ++r) for (int i = 0; i < v->n[r]; ++i) s += v->a[r][i] * v->a[r][i];
    double nrm = __builtin_sqrt(s);
    collective(22, (long)v);
    int r = me();
    for (int i = 0; i < v->n[r]; ++i) v->a[r][i] /= nrm;
    if (val) *val = nrm;
    return (PetscErrorCode)0;
}

// ---- the rest of the vector interface
PetscErrorCode VecZeroEntries(Vec v) { return VecSet(v, 0.); }
PetscErrorCode VecShift(Vec v, PetscScalar x) { int r = me(); for (int i = 0; i < v->n[r]; ++i) v->a[r][i] += x; return (PetscErrorCode)0; }
PetscErrorCode VecAYPX(Vec y, PetscScalar a, Vec x) { int r = me(); if (x->n[r] != y->n[r]) return raise_err(60); for (int i = 0; i < x->n[r]; ++i) y->a[r][i] = a * y->a[r][i] + x->a[r][i]; return (PetscErrorCode)0; }
PetscErrorCode VecAXPBY(Vec y, PetscScalar a, PetscScalar b, Vec x) { int r = me(); if (x->n[r] != y->n[r]) return raise_err(60); for (int i = 0; i < x->n[r]; ++i) y->a[r][i] = a * x->a[r][i] + b * y->a[r][i]; return (PetscErrorCode)0; }
PetscErrorCode VecWAXPY(Vec w, PetscScalar a, Vec x, Vec y) { int r = me(); if (x->n[r] != y->n[r] || w->n[r] != x->n[r]) return raise_err(60); for (int i = 0; i < x->n[r]; ++i) w->a[r][i] = a * x->a[r][i] + y->a[r][i]; return (PetscErrorCode)0; }
PetscErrorCode VecPointwiseMult(Vec w, Vec x, Vec y) { int r = me(); if (x->n[r] != y->n[r] || w->n[r] != x->n[r]) return raise_err(60); for (int i = 0; i < x->n[r]; ++i) w->a[r][i] = x->a[r][i] * y->a[r][i]; return (PetscErrorCode)0; }
PetscErrorCode VecSwap(Vec x, Vec y) { int r = me(); if (x->n[r] != y->n[r]) return raise_err(60); for (int i = 0; i < x->n[r]; ++i) { double t = x->a[r][i]; x->a[r][i] = y->a[r][i]; y->a[r][i] = t; } return (PetscErrorCode)0; }
PetscErrorCode VecDot(Vec x, Vec y, PetscScalar *out)
{
    collective(41, (long)x);
    double s = 0;
    for (int r = 0; r < x->nr; ++r) if (!x->local || r == me()) for (int i = 0; i < x->n[r]; ++i) s += x->a[r][i] * y->a[r][i];
    collective(42, (long)x);
    *out = s;
    return (PetscErrorCode)0;
}
PetscErrorCode VecSum(Vec x, PetscScalar *out)
{
    collective(43, (long)x);
    double s = 0;
    for (int r = 0; r < x->nr; ++r) if (!x->local || r == me()) for (int i = 0; i < x->n[r]; ++i) s += x->a[r][i];
    collective(44, (long)x);
    *out = s;
    return (PetscErrorCode)0;
}
PetscErrorCode VecNorm(Vec x, NormType t, PetscReal *out)
{
    if (t == NORM_2) { double s; VecDot(x, x, &s); *out = __builtin_sqrt(s); return (PetscErrorCode)0; }
    collective(45, (long)x);
    double s = 0;
    for (int r = 0; r < x->nr; ++r) if (!x->local || r == me()) for (int i = 0; i < x->n[r]; ++i) { double a = __builtin_fabs(x->a[r][i]); if (t == NORM_1) s += a; else s = a > s ? a : s; }
    collective(46, (long)x);
    *out = s;
    return (PetscErrorCode)0;
}
PetscErrorCode VecGetArrayWrite(Vec v, PetscScalar **a) { *a = v->a[me()]; return (PetscErrorCode)0; }
PetscErrorCode VecRestoreArrayWrite(Vec, PetscScalar **a) { *a = nullptr; return (PetscErrorCode)0; }
PetscErrorCode VecGetOwnershipRange(Vec v, PetscInt *lo, PetscInt *hi) { int s = 0; for (int r = 0; r < me(); ++r) s += v->n[r]; if (lo) *lo = s; if (hi) *hi = s + v->n[me()]; return (PetscErrorCode)0; }
PetscErrorCode VecAssemblyBegin(Vec) { collective(47); return (PetscErrorCode)0; }
PetscErrorCode VecAssemblyEnd(Vec) { collective(48); return (PetscErrorCode)0; }
static char *keep(const char *t) { size_t n = strlen(t); char *r = (char *)malloc(n + 1); memcpy(r, t, n + 1); return r; }
PetscErrorCode PetscViewerHDF5Open(MPI_Comm, const char name[], PetscFileMode mode, PetscViewer *out)
{
    collective(8);
    PetscViewer v = znew<_p_PetscViewer>();
    v->kind = K_VIEWER;
    v->file = keep(name);
    if (mode == FILE_MODE_WRITE && me() == 0) // truncates the file
        for (int i = 0; i < g_nsaved; ++i) if (!strcmp(g_saved[i].file, name)) g_saved[i].nd = -1;
    collective(8);
    *out = v;
    return (PetscErrorCode)0;
}
PetscErrorCode PetscViewerSetFromOptions(PetscViewer) { return (PetscErrorCode)0; }
PetscErrorCode PetscViewerDestroy(PetscViewer *v) { collective(9); *v = nullptr; return (PetscErrorCode)0; }
static saved_set *find_saved(const char *file, const char *name)
{
    for (int i = 0; i < g_nsaved; ++i) if (g_saved[i].nd >= 0 && !strcmp(g_saved[i].file, file) && !strcmp(g_saved[i].name, name)) return &g_saved[i];
    return nullptr;
}
PetscErrorCode VecView(Vec v, PetscViewer w)
{
    if (!w || w->kind != K_VIEWER) return (PetscErrorCode)0;
    collective(10);
    DM dm = v->dm;
    bool da = dm && dm->type == TAG_DMDA && !v->local;
    const char *name = v->name ? v->name : "unnamed";
    int N = 0, off = 0;
    for (int r = 0; r < v->nr; ++r) { if (r < me()) off += v->n[r]; N += v->n[r]; }
    if (me() == 0)
    {
        saved_set *s = find_saved(w->file, name);
        if (!s) { if (g_nsaved == 16) sx_fail("unmodelled-many-datasets"); s = &g_saved[g_nsaved++]; }
        s->file = w->file; s->name = name; s->nd = 0;
        if (da)
        {
            for (int d = dm->dim - 1; d >= 0; --d) s->dims[s->nd++] = dm->M[d];
            if (dm->dof > 1) s->dims[s->nd++] = dm->dof;
        }
        else s->dims[s->nd++] = N;
        s->a = (double *)malloc(N * sizeof(double) + 1);
    }
    collective(10);
    saved_set *s = find_saved(w->file, name);
    if (!da) { for (int i = 0; i < v->n[me()]; ++i) s->a[off + i] = v->a[me()][i]; }
    else
    {
        int p[3];
        rank_pos(dm, me(), p);
        ext x = extent(dm, 0, p[0]), y = extent(dm, 1, p[1]), z = extent(dm, 2, p[2]);
        int q = 0;
        for (int k = z.s; k < z.s + z.n; ++k)
            for (int j = y.s; j < y.s + y.n; ++j)
                for (int i = x.s; i < x.s + x.n; ++i)
                    for (int c = 0; c < dm->dof; ++c, ++q) s->a[((k * dm->M[1] + j) * dm->M[0] + i) * dm->dof + c] = v->a[me()][q];
    }
    collective(10);
    return (PetscErrorCode)0;
}
extern "C" int hx_saved(const char *file, const char *name, int *dims)
{
    saved_set *s = find_saved(file, name);
    if (!s) return -1;
    for (int i = 0; i < s->nd; ++i) dims[i] = s->dims[i];
    return s->nd;
}
extern "C" double hx_saved_at(const char *file, const char *name, long i)
{
    saved_set *s = find_saved(file, name);
    return s->a[i];
}

// array views: one allocation per row, so that an index outside the local
// (ghosted or owned) region is an out-of-bounds access
static void box_of(DM da, Vec v, int lo[3], int n[3])
{
    int p[3]; rank_pos(da, me(), p);
    for (int d = 0; d < 3; ++d)
    {
        ext e = extent(da, d, p[d]);
        if (v->local) { lo[d] = e.gs; n[d] = e.gn; } else { lo[d] = e.s; n[d] = e.n; }
    }
}
PetscErrorCode DMDAVecGetArrayDOF(DM da, Vec v, void *out)
{
    int lo[3], n[3]; box_of(da, v, lo, n);
    double *base = v->a[me()];
    if (v->n[me()] != da->dof * n[0] * n[1] * n[2]) sx_fail("petsc-vec-size");
    if (da->dim == 2)
    {
        double ***rows = (double ***)malloc(n[1] * sizeof(double **));
        for (int j = 0; j < n[1]; ++j)
        {
            double **row = (double **)malloc(n[0] * sizeof(double *));
            for (int i = 0; i < n[0]; ++i) row[i] = base + da->dof * (j * n[0] + i);
            rows[j] = row - lo[0];
        }
        *(double ****)out = rows - lo[1];
    }
    else
    {
        double ****pl = (double ****)malloc(n[2] * sizeof(double ***));
        for (int k = 0; k < n[2]; ++k)
        {
            double ***rows = (double ***)malloc(n[1] * sizeof(double **));
            for (int j = 0; j < n[1]; ++j)
            {
                double **row = (double **)malloc(n[0] * sizeof(double *));
                for (int i = 0; i < n[0]; ++i) row[i] = base + da->dof * ((k * n[1] + j) * n[0] + i);
                rows[j] = row - lo[0];
            }
            pl[k] = rows - lo[1];
        }
        *(double *****)out = pl - lo[2];
    }
    return (PetscErrorCode)0;
}
PetscErrorCode DMDAVecGetArrayDOFRead(DM da, Vec v, void *out) { return DMDAVecGetArrayDOF(da, v, out); }
PetscErrorCode DMDAVecRestoreArrayDOF(DM, Vec, void *) { return (PetscErrorCode)0; }
PetscErrorCode DMDAVecRestoreArrayDOFRead(DM, Vec, void *) { return (PetscErrorCode)0; }
PetscErrorCode DMDAVecGetArray(DM da, Vec v, void *out)
{
    int lo[3], n[3]; box_of(da, v, lo, n);
    double *base = v->a[me()];
    if (da->dim == 2)
    {
        int dof = da->dof;
        double **rows = (double **)malloc(n[1] * sizeof(double *));
        for (int j = 0; j < n[1]; ++j) rows[j] = base + dof * j * n[0] - dof * lo[0];
        *(double ***)out = rows - lo[1];
    }
    else
    {
        double ***pl = (double ***)malloc(n[2] * sizeof(double **));
        for (int k = 0; k < n[2]; ++k)
        {
            double **rows = (double **)malloc(n[1] * sizeof(double *));
            for (int j = 0; j < n[1]; ++j) rows[j] = base + (k * n[1] + j) * n[0] - lo[0];
            pl[k] = rows - lo[1];
        }
        *(double ****)out = pl - lo[2];
    }
    return (PetscErrorCode)0;
}
PetscErrorCode DMDAVecRestoreArray(DM, Vec, void *) { return (PetscErrorCode)0; }
PetscErrorCode DMDAVecGetArrayRead(DM da, Vec v, void *out) { return DMDAVecGetArray(da, v, out); }
PetscErrorCode DMDAVecRestoreArrayRead(DM, Vec, void *) { return (PetscErrorCode)0; }

PetscErrorCode DMGlobalToLocalBegin(DM, Vec, InsertMode, Vec) { collective(1); return (PetscErrorCode)0; }
PetscErrorCode DMGlobalToLocalEnd(DM da, Vec g, InsertMode mode, Vec l)
{
    if (mode != INSERT_VALUES) sx_fail("unmodelled-g2l-mode");
    int lo[3], n[3]; box_of(da, l, lo, n);
    double *a = l->a[me()];
    for (int k = 0; k < n[2]; ++k)
        for (int j = 0; j < n[1]; ++j)
            for (int i = 0; i < n[0]; ++i)
            {
                int q[3] = {wrap(da, 0, lo[0] + i), wrap(da, 1, lo[1] + j), wrap(da, 2, lo[2] + k)}, r, off;
                owner(da, q, r, off);
                for (int d = 0; d < da->dof; ++d) a[da->dof * ((k * n[1] + j) * n[0] + i) + d] = g->a[r][da->dof * off + d];
            }
    collective(2);
    return (PetscErrorCode)0;
}
PetscErrorCode DMLocalToGlobalBegin(DM, Vec, InsertMode, Vec) { collective(3); return (PetscErrorCode)0; }
PetscErrorCode DMLocalToGlobalEnd(DM da, Vec l, InsertMode mode, Vec g)
{
    if (mode != ADD_VALUES && mode != INSERT_VALUES) sx_fail("unmodelled-l2g-mode");
    int lo[3], n[3]; box_of(da, l, lo, n);
    double *a = l->a[me()];
    for (int k = 0; k < n[2]; ++k)
        for (int j = 0; j < n[1]; ++j)
            for (int i = 0; i < n[0]; ++i)
            {
                int q[3] = {wrap(da, 0, lo[0] + i), wrap(da, 1, lo[1] + j), wrap(da, 2, lo[2] + k)}, r, off;
                owner(da, q, r, off);
                for (int d = 0; d < da->dof; ++d)
                {
                    double x = a[da->dof * ((k * n[1] + j) * n[0] + i) + d];
                    if (mode == ADD_VALUES) g->a[r][da->dof * off + d] += x;
                    else if (r == me() && q[0] == lo[0] + i && q[1] == lo[1] + j && q[2] == lo[2] + k) g->a[r][da->dof * off + d] = x;
                }
            }
    collective(4);
    return (PetscErrorCode)0;
}


PetscErrorCode DMDAVecGetArrayDOFWrite(DM da, Vec v, void *out) { return DMDAVecGetArrayDOF(da, v, out); }
PetscErrorCode DMDAVecRestoreArrayDOFWrite(DM, Vec, void *) { return (PetscErrorCode)0; }
PetscErrorCode DMDAVecGetArrayWrite(DM da, Vec v, void *out) { return DMDAVecGetArray(da, v, out); }
PetscErrorCode DMDAVecRestoreArrayWrite(DM, Vec, void *) { return (PetscErrorCode)0; }
PetscErrorCode DMGlobalToLocal(DM da, Vec g, InsertMode m, Vec l) { DMGlobalToLocalBegin(da, g, m, l); return DMGlobalToLocalEnd(da, g, m, l); }
PetscErrorCode DMLocalToGlobal(DM da, Vec l, InsertMode m, Vec g) { DMLocalToGlobalBegin(da, l, m, g); return DMLocalToGlobalEnd(da, l, m, g); }
PetscErrorCode DMGetDimension(DM dm, PetscInt *d) { *d = dm->dim; return (PetscErrorCode)0; }
PetscErrorCode DMDAGetDof(DM dm, PetscInt *d) { *d = dm->dof; return (PetscErrorCode)0; }
PetscErrorCode DMDAGetStencilWidth(DM dm, PetscInt *d) { *d = dm->s; return (PetscErrorCode)0; }
PetscErrorCode DMDAGetBoundaryType(DM dm, DMBoundaryType *x, DMBoundaryType *y, DMBoundaryType *z) { if (x) *x = dm->b[0]; if (y) *y = dm->b[1]; if (z) *z = dm->b[2]; return (PetscErrorCode)0; }
PetscErrorCode DMDAGetCorners(DM dm, PetscInt *x, PetscInt *y, PetscInt *z, PetscInt *m, PetscInt *n, PetscInt *p)
{
    DMDALocalInfo i; DMDAGetLocalInfo(dm, &i);
    if (x) *x = i.xs; if (y) *y = i.ys; if (z) *z = i.zs; if (m) *m = i.xm; if (n) *n = i.ym; if (p) *p = i.zm;
    return (PetscErrorCode)0;
}
PetscErrorCode DMDAGetGhostCorners(DM dm, PetscInt *x, PetscInt *y, PetscInt *z, PetscInt *m, PetscInt *n, PetscInt *p)
{
    DMDALocalInfo i; DMDAGetLocalInfo(dm, &i);
    if (x) *x = i.gxs; if (y) *y = i.gys; if (z) *z = i.gzs; if (m) *m = i.gxm; if (n) *n = i.gym; if (p) *p = i.gzm;
    return (PetscErrorCode)0;
}
PetscErrorCode DMRestoreLocalToGlobalMapping(DM, ISLocalToGlobalMapping *) { return (PetscErrorCode)0; }

// ---------------------------------------------------------------- index maps
static int comp_offset(DM dm, int r)
{
    int n = 0;
    for (int q = 0; q < r; ++q) n += dm_local_size(dm, q);
    return n;
}
PetscErrorCode DMGetLocalToGlobalMapping(DM dm, ISLocalToGlobalMapping *out)
{
    if (!dm->ltog)
    {
        ISLocalToGlobalMapping L = znew<_p_ISLocalToGlobalMapping>();
        L->kind = K_ISL;
        dm->ltog = L;
        int nsub = dm->type == TAG_DMCOMP ? dm->nsub : 1;
        for (int rk = 0; rk < nranks(); ++rk)
        {
            int tot = 0;
            for (int e = 0; e < nsub; ++e) tot += da_ghost_size(dm->type == TAG_DMCOMP ? dm->sub[e] : dm, rk);
            L->n[rk] = tot;
            L->idx[rk] = (int *)malloc(tot * sizeof(int));
            int c = 0;
            for (int e = 0; e < nsub; ++e)
            {
                DM da = dm->type == TAG_DMCOMP ? dm->sub[e] : dm;
                int p[3]; rank_pos(da, rk, p);
                ext x = extent(da, 0, p[0]), y = extent(da, 1, p[1]), z = extent(da, 2, p[2]);
                for (int k = 0; k < z.gn; ++k)
                    for (int j = 0; j < y.gn; ++j)
                        for (int i = 0; i < x.gn; ++i)
                        {
                            int q[3] = {wrap(da, 0, x.gs + i), wrap(da, 1, y.gs + j), wrap(da, 2, z.gs + k)}, r, off;
                            owner(da, q, r, off);
                            int base = comp_offset(dm, r);
                            if (dm->type == TAG_DMCOMP) for (int f = 0; f < e; ++f) base += da_local_size(dm->sub[f], r);
                            for (int d = 0; d < da->dof; ++d) L->idx[rk][c++] = base + da->dof * off + d;
                        }
            }
        }
    }
    *out = dm->ltog;
    return (PetscErrorCode)0;
}
PetscErrorCode ISLocalToGlobalMappingApply(ISLocalToGlobalMapping L, PetscInt n, const PetscInt in[], PetscInt out[])
{
    int r = me();
    for (int i = 0; i < n; ++i)
    {
        if (in[i] < 0) { out[i] = in[i]; continue; }
        if (in[i] >= L->n[r]) return raise_err(63);
        out[i] = L->idx[r][in[i]];
    }
    return (PetscErrorCode)0;
}

// ---------------------------------------------------------------- matrices
static Mat new_mat(int kind)
{
    bool first;
    coll_entry *c = coll(K_MAT, first, kind);
    if (first) { Mat m = znew<_p_Mat>(); m->kind = K_MAT; m->type = kind; c->obj = m; }
    return (Mat)c->obj;
}
static void mat_sizes(Mat A, int n)
{
    A->n[me()] = n;
    if (nranks() > 1) sx_barrier();
    int s = 0;
    for (int r = 0; r < nranks(); ++r) { A->off[r] = s; s += A->n[r]; }
    A->N = s;
}
PetscErrorCode MatCreate(MPI_Comm, Mat *A) { *A = new_mat(1); return (PetscErrorCode)0; }
PetscErrorCode MatCreateShell(MPI_Comm, PetscInt m, PetscInt n, PetscInt M, PetscInt N, void *ctx, Mat *A)
{
    *A = new_mat(2);
    (*A)->ctx[me()] = ctx;
    mat_sizes(*A, m);
    if (M >= 0 && M != (*A)->N) return raise_err(60);
    return (PetscErrorCode)0;
}
PetscErrorCode MatCreateNest(MPI_Comm, PetscInt nr, const IS *, PetscInt nc, const IS *, const Mat a[], Mat *A)
{
    *A = new_mat(3);
    if (nr != 2 || nc != 2) sx_fail("unmodelled-nest");
    int n = 0;
    for (int i = 0; i < 4; ++i) (*A)->sub[i] = a[i];
    n = (a[0] ? a[0]->n[me()] : 0) + (a[3] ? a[3]->n[me()] : 0);
    mat_sizes(*A, n);
    return (PetscErrorCode)0;
}
PetscErrorCode MatNestGetSubMat(Mat A, PetscInt i, PetscInt j, Mat *s) { *s = A->sub[2 * i + j]; return (PetscErrorCode)0; }
PetscErrorCode MatSetSizes(Mat A, PetscInt m, PetscInt n, PetscInt M, PetscInt N)
{
    if (m != n) sx_fail("unmodelled-rect-mat");
    mat_sizes(A, m);
    if (M >= 0 && M != A->N) return raise_err(60);
    return (PetscErrorCode)0;
}
PetscErrorCode MatSetType(Mat A, MatType t) { if (t && t[0] == 's') A->type = 2; return (PetscErrorCode)0; }
PetscErrorCode MatSetDM(Mat A, DM dm) { A->dm = dm; return (PetscErrorCode)0; }
PetscErrorCode MatGetDM(Mat A, DM *dm) { *dm = A->dm; return (PetscErrorCode)0; }
PetscErrorCode MatSetUp(Mat) { return (PetscErrorCode)0; }
PetscErrorCode MatSetFromOptions(Mat) { return (PetscErrorCode)0; }
PetscErrorCode MatShellSetContext(Mat A, void *c) { A->ctx[me()] = c; return (PetscErrorCode)0; }
PetscErrorCode MatShellGetContext(Mat A, void *c) { *(void **)c = A->ctx[me()]; return (PetscErrorCode)0; }
PetscErrorCode MatShellSetOperation(Mat A, MatOperation op, void (*f)(void))
{
    if (op == MATOP_MULT) A->op_mult = f;
    else if (op == MATOP_GET_DIAGONAL) A->op_diag = f;
    else sx_fail("unmodelled-matop");
    return (PetscErrorCode)0;
}
PetscErrorCode MatDestroy(Mat *A) { *A = nullptr; return (PetscErrorCode)0; }
PetscErrorCode MatSetLocalToGlobalMapping(Mat A, ISLocalToGlobalMapping r, ISLocalToGlobalMapping c) { A->rl = r; A->cl = c; return (PetscErrorCode)0; }
static void mat_alloc(Mat A)
{
    if (A->row) return;
    A->row = (double **)malloc(A->N * sizeof(double *));
    A->pres = (char **)malloc(A->N * sizeof(char *));
    A->dnz = (int *)malloc(A->N * sizeof(int)); A->onz = (int *)malloc(A->N * sizeof(int));
    A->cd = (int *)malloc(A->N * sizeof(int)); A->co = (int *)malloc(A->N * sizeof(int));
    for (int i = 0; i < A->N; ++i) { A->row[i] = nullptr; A->pres[i] = nullptr; A->dnz[i] = A->onz[i] = 0; A->cd[i] = A->co[i] = 0; }
}
static int row_owner(Mat A, int g)
{
    int r = 0;
    while (r < nranks() - 1 && g >= A->off[r] + A->n[r]) ++r;
    return r;
}
static PetscErrorCode set_prealloc(Mat A, const PetscInt *dnz, const PetscInt *onz, bool par)
{
    mat_alloc(A);
    int r = me();
    for (int i = 0; i < A->n[r]; ++i)
    {
        if (dnz && dnz[i] > A->n[r]) return raise_err(63);
        A->dnz[A->off[r] + i] = dnz ? dnz[i] : 0;
        A->onz[A->off[r] + i] = onz ? onz[i] : 0;
    }
    A->prealloc = 1;
    collective(10);
    return (PetscErrorCode)0;
}
PetscErrorCode MatSeqAIJSetPreallocation(Mat A, PetscInt, const PetscInt nnz[]) { return nranks() == 1 ? set_prealloc(A, nnz, nullptr, false) : (PetscErrorCode)0; }
PetscErrorCode MatMPIAIJSetPreallocation(Mat A, PetscInt, const PetscInt dnz[], PetscInt, const PetscInt onz[]) { return nranks() > 1 ? set_prealloc(A, dnz, onz, true) : (PetscErrorCode)0; }
static PetscErrorCode put(Mat A, int gr, int gc, double v, InsertMode mode)
{
    if (!A->row[gr])
    {
        A->row[gr] = (double *)malloc(A->N * sizeof(double));
        A->pres[gr] = (char *)malloc(A->N);
        for (int i = 0; i < A->N; ++i) { A->row[gr][i] = 0.; A->pres[gr][i] = 0; }
    }
    if (!A->pres[gr][gc])
    {
        bool diag = row_owner(A, gr) == row_owner(A, gc);
        int &cnt = diag ? A->cd[gr] : A->co[gr];
        if (A->prealloc && cnt >= (diag ? A->dnz[gr] : A->onz[gr])) return raise_err(63);
        ++cnt;
        A->pres[gr][gc] = 1;
    }
    if (mode == ADD_VALUES) A->row[gr][gc] += v; else A->row[gr][gc] = v;
    return (PetscErrorCode)0;
}
PetscErrorCode MatSetValuesLocal(Mat A, PetscInt nr, const PetscInt ir[], PetscInt nc, const PetscInt ic[], const PetscScalar y[], InsertMode mode)
{
    int me_ = me();
    mat_alloc(A);
    for (int i = 0; i < nr; ++i) if (ir[i] >= A->rl->n[me_]) return raise_err(63);
    for (int j = 0; j < nc; ++j) if (ic[j] >= A->cl->n[me_]) return raise_err(63);
    for (int i = 0; i < nr; ++i)
    {
        if (ir[i] < 0) continue;
        int gr = A->rl->idx[me_][ir[i]];
        for (int j = 0; j < nc; ++j)
        {
            if (ic[j] < 0) continue;
            PetscErrorCode e = put(A, gr, A->cl->idx[me_][ic[j]], y[i * nc + j], mode);
            if (e) return e;
        }
    }
    A->assembled = 0;
    return (PetscErrorCode)0;
}
PetscErrorCode MatAssemblyBegin(Mat, MatAssemblyType) { collective(5); return (PetscErrorCode)0; }
PetscErrorCode MatAssemblyEnd(Mat A, MatAssemblyType) { collective(6); A->assembled = 1; return (PetscErrorCode)0; }
PetscErrorCode MatZeroRowsLocal(Mat A, PetscInt n, const PetscInt rows[], PetscScalar diag, Vec, Vec)
{
    collective(7);
    int r = me();
    for (int i = 0; i < n; ++i)
    {
        if (rows[i] < 0) continue;
        if (rows[i] >= A->rl->n[r]) return raise_err(63);
        int g = A->rl->idx[r][rows[i]];
        if (!A->row[g]) continue;
        for (int j = 0; j < A->N; ++j) A->row[g][j] = 0.;
        A->row[g][g] = diag;
    }
    collective(8);
    return (PetscErrorCode)0;
}
PetscErrorCode MatMult(Mat A, Vec x, Vec y)
{
    if (A->type == 2) return ((PetscErrorCode(*)(Mat, Vec, Vec))A->op_mult)(A, x, y);
    if (A->type != 1) { sx_fail("unmodelled-matmult"); return (PetscErrorCode)1; }
    collective(9);
    int r = me();
    for (int i = 0; i < A->n[r]; ++i)
    {
        double s = 0;
        double *row = A->row ? A->row[A->off[r] + i] : nullptr;
        char *pr = row ? A->pres[A->off[r] + i] : nullptr;
        if (row)
            for (int q = 0; q < nranks(); ++q)
                for (int j = 0; j < A->n[q]; ++j)
                    if (pr[A->off[q] + j]) s += row[A->off[q] + j] * x->a[q][j];
        y->a[r][i] = s;
    }
    collective(10);
    return (PetscErrorCode)0;
}
PetscErrorCode MatGetDiagonal(Mat A, Vec d)
{
    if (A->type == 2) { if (!A->op_diag) return raise_err(56); return ((PetscErrorCode(*)(Mat, Vec))A->op_diag)(A, d); }
    int r = me();
    for (int i = 0; i < A->n[r]; ++i) { int g = A->off[r] + i; d->a[r][i] = A->row[g] ? A->row[g][g] : 0.; }
    return (PetscErrorCode)0;
}
PetscErrorCode VecCreateMPI(MPI_Comm, PetscInt n, PetscInt, Vec *v) { *v = by_sizes(n); return (PetscErrorCode)0; }
PetscErrorCode MatCreateVecs(Mat A, Vec *right, Vec *left)
{
    if (right) *right = by_sizes(A->n[me()]);
    if (left) *left = by_sizes(A->n[me()]);
    return (PetscErrorCode)0;
}
PetscErrorCode MatGetLocalSize(Mat A, PetscInt *m, PetscInt *n) { if (m) *m = A->n[me()]; if (n) *n = A->n[me()]; return (PetscErrorCode)0; }
PetscErrorCode MatGetSize(Mat A, PetscInt *m, PetscInt *n) { if (m) *m = A->N; if (n) *n = A->N; return (PetscErrorCode)0; }
PetscErrorCode MatNullSpaceCreate(MPI_Comm, PetscBool hc, PetscInt n, const Vec v[], MatNullSpace *sp)
{
    bool first;
    coll_entry *c = coll(K_NS, first);
    if (first) { MatNullSpace s = znew<_p_MatNullSpace>(); s->kind = K_NS; s->has_const = hc; s->n = n; for (int i = 0; i < n; ++i) s->v[i] = v[i]; c->obj = s; }
    *sp = (MatNullSpace)c->obj;
    return (PetscErrorCode)0;
}
PetscErrorCode MatSetNullSpace(Mat A, MatNullSpace s) { A->ns = s; return (PetscErrorCode)0; }
PetscErrorCode MatGetNullSpace(Mat A, MatNullSpace *s) { *s = A->ns; return (PetscErrorCode)0; }
PetscErrorCode MatNullSpaceGetVecs(MatNullSpace s, PetscBool *hc, PetscInt *n, const Vec **v) { if (hc) *hc = s->has_const; if (n) *n = s->n; if (v) *v = s->v; return (PetscErrorCode)0; }

static int g_preonly = 0;
// ---------------------------------------------------------------- KSP / PC: configuration only
static KSP new_ksp()
{
    KSP s = znew<_p_KSP>();
    s->kind = K_KSP; s->type = "gmres"; s->prefix = "";
    s->pc = znew<_p_PC>();
    s->pc->kind = K_PC; s->pc->ksp = s; s->pc->type = "none";
    return s;
}
static const char *ksp_option(KSP k, const char *what);
PetscErrorCode KSPCreate(MPI_Comm, KSP *k)
{
    bool first; coll_entry *c = coll(K_KSP, first);
    if (first) c->obj = new_ksp();
    *k = (KSP)c->obj; return (PetscErrorCode)0;
}
PetscErrorCode KSPSetDM(KSP k, DM dm) { k->dm = dm; return (PetscErrorCode)0; }
PetscErrorCode KSPGetDM(KSP k, DM *dm) { *dm = k->dm; return (PetscErrorCode)0; }
PetscErrorCode KSPSetDMActive(KSP, PetscBool) { return (PetscErrorCode)0; }
PetscErrorCode KSPSetOptionsPrefix(KSP k, const char p[]) { k->prefix = keep(p); return (PetscErrorCode)0; }
PetscErrorCode KSPSetFromOptions(KSP k)
{
    const char *t = ksp_option(k, "ksp_type"), *q = ksp_option(k, "pc_type");
    if (t) k->type = t;
    if (q) k->pc->type = q;
    return (PetscErrorCode)0;
}
PetscErrorCode KSPSetOperators(KSP k, Mat A, Mat P) { k->A = A; k->P = P; return (PetscErrorCode)0; }
PetscErrorCode KSPGetOperators(KSP k, Mat *A, Mat *P) { if (A) *A = k->A; if (P) *P = k->P; return (PetscErrorCode)0; }
PetscErrorCode KSPSetUp(KSP) { return (PetscErrorCode)0; }
PetscErrorCode KSPGetPC(KSP k, PC *pc) { *pc = k->pc; return (PetscErrorCode)0; }
PetscErrorCode KSPSetPC(KSP k, PC pc) { k->pc = pc; return (PetscErrorCode)0; }
PetscErrorCode KSPSetType(KSP k, KSPType t) { k->type = t; return (PetscErrorCode)0; }
PetscErrorCode KSPGetType(KSP k, KSPType *t) { *t = k->type; return (PetscErrorCode)0; }
PetscErrorCode KSPSetTolerances(KSP k, PetscReal r, PetscReal, PetscReal, PetscInt) { k->rtol = r; return (PetscErrorCode)0; }
PetscErrorCode KSPSetInitialGuessNonzero(KSP, PetscBool) { return (PetscErrorCode)0; }
PetscErrorCode PCSetType(PC p, PCType t) { p->type = t; return (PetscErrorCode)0; }
PetscErrorCode PCGetType(PC p, PCType *t) { *t = p->type; return (PetscErrorCode)0; }
PetscErrorCode PCSetUp(PC) { return (PetscErrorCode)0; }
PetscErrorCode PCSetOperators(PC p, Mat A, Mat P) { ((KSP)p->ksp)->A = A; ((KSP)p->ksp)->P = P; return (PetscErrorCode)0; }
PetscErrorCode PCFactorSetShiftType(PC, MatFactorShiftType) { return (PetscErrorCode)0; }
PetscErrorCode PCFieldSplitSetType(PC, PCCompositeType) { return (PetscErrorCode)0; }
PetscErrorCode PCFieldSplitSetOffDiagUseAmat(PC, PetscBool) { return (PetscErrorCode)0; }
PetscErrorCode PCFieldSplitSetDiagUseAmat(PC, PetscBool) { return (PetscErrorCode)0; }
PetscErrorCode PCFieldSplitSetSchurFactType(PC, PCFieldSplitSchurFactType) { return (PetscErrorCode)0; }
PetscErrorCode PCFieldSplitSetSchurPre(PC, PCFieldSplitSchurPreType, Mat) { return (PetscErrorCode)0; }
PetscErrorCode PCFieldSplitGetSubKSP(PC p, PetscInt *n, KSP *k[])
{
    KSP top = (KSP)p->ksp;
    if (strcmp(p->type, "fieldsplit") || !top->dm || top->dm->nsub != 2) return raise_err(73);
    for (int i = 0; i < 2; ++i)
        if (!p->sub[i])
        {
            p->sub[i] = new_ksp();
            p->sub[i]->dm = top->dm->sub[i];
            if (top->P && top->P->type == 3) p->sub[i]->A = p->sub[i]->P = top->P->sub[3 * i];
        }
    if (n) *n = 2;
    *k = (KSP *)malloc(2 * sizeof(KSP));
    (*k)[0] = p->sub[0]; (*k)[1] = p->sub[1];
    return (PetscErrorCode)0;
}
PetscErrorCode PCFieldSplitSchurGetSubKSP(PC p, PetscInt *n, KSP *k[]) { return PCFieldSplitGetSubKSP(p, n, k); }
PetscErrorCode PCMGSetLevels(PC p, PetscInt n, MPI_Comm *) { if (strcmp(p->type, "mg")) return raise_err(62); if (n < 1 || n > 32) return raise_err(63); p->levels = n; return (PetscErrorCode)0; }
PetscErrorCode PCMGGetLevels(PC p, PetscInt *n) { *n = p->levels; return (PetscErrorCode)0; }
PetscErrorCode PCMGGetSmoother(PC p, PetscInt l, KSP *k)
{
    if (strcmp(p->type, "mg")) return raise_err(62);
    if (l < 0 || l >= p->levels) return raise_err(63);
    if (!p->smoother[l]) p->smoother[l] = new_ksp();
    *k = p->smoother[l];
    return (PetscErrorCode)0;
}
PetscErrorCode PCMGSetGalerkin(PC, PCMGGalerkinType) { return (PetscErrorCode)0; }
PetscErrorCode DMKSPSetComputeOperators(DM dm, PetscErrorCode (*f)(KSP, Mat, Mat, void *), void *c) { dm->kspfn = (void *)f; dm->kspctx = c; return (PetscErrorCode)0; }
PetscErrorCode DMKSPGetComputeOperators(DM dm, PetscErrorCode (**f)(KSP, Mat, Mat, void *), void *c) { *f = (PetscErrorCode(*)(KSP, Mat, Mat, void *))dm->kspfn; *(void **)c = dm->kspctx; return (PetscErrorCode)0; }
// the one application of a preconditioner "none" (options -ksp_type preonly), on a matrix-free operator
PetscErrorCode KSPSolve(KSP k, Vec b, Vec x)
{
    if (!k->A) return raise_err(73);
    if (k->A->type != 2 || strcmp(k->pc->type, "none") || !g_preonly) { sx_fail("unmodelled-KSPSolve"); return (PetscErrorCode)0; }
    return VecCopy(b, x);
}

// ---------------------------------------------------------------- misc
PetscErrorCode PetscObjectTypeCompare(PetscObject o, const char t[], PetscBool *same)
{
    int kind = *(int *)o;
    const char *mine = "";
    if (kind == K_DM) mine = ((DM)o)->type == TAG_DMDA ? "da" : "composite";
    else if (kind == K_KSP) mine = ((KSP)o)->type;
    else if (kind == K_PC) mine = ((PC)o)->type;
    *same = strcmp(mine, t) == 0 ? PETSC_TRUE : PETSC_FALSE;
    return (PetscErrorCode)0;
}
MPI_Comm PetscObjectComm(PetscObject) { return PETSC_COMM_WORLD; }
PetscErrorCode PetscObjectGetComm(PetscObject, MPI_Comm *c) { *c = PETSC_COMM_WORLD; return (PetscErrorCode)0; }
PetscErrorCode PetscObjectSetName(PetscObject o, const char n[]) { if (*(int *)o == K_VEC) ((Vec)o)->name = keep(n); return (PetscErrorCode)0; }
PetscErrorCode PetscError(MPI_Comm, int, const char *, const char *, PetscErrorCode c, PetscErrorType t, const char *, ...) { if (t == PETSC_ERROR_INITIAL) ++g_errors; return c; }
PetscErrorCode PetscMallocA(int n, PetscBool clear, int, const char *, const char *, size_t s0, void *p0, ...)
{
    va_list ap; va_start(ap, p0);
    *(void **)p0 = malloc(s0 ? s0 : 1);
    if (clear) memset(*(void **)p0, 0, s0);
    for (int i = 1; i < n; ++i)
    {
        size_t s = va_arg(ap, size_t);
        void **p = va_arg(ap, void **);
        *p = malloc(s ? s : 1);
        if (clear) memset(*p, 0, s);
    }
    va_end(ap);
    return (PetscErrorCode)0;
}
PetscErrorCode PetscFreeA(int n, int, const char *, const char *, void *p0, ...)
{
    va_list ap; va_start(ap, p0);
    free(*(void **)p0); *(void **)p0 = nullptr;
    for (int i = 1; i < n; ++i) { void **p = va_arg(ap, void **); free(*p); *p = nullptr; }
    va_end(ap);
    return (PetscErrorCode)0;
}
static PetscErrorCode tr_malloc(size_t n, PetscBool clear, int, const char[], const char[], void **p) { *p = n ? malloc(n) : nullptr; if (clear && n) memset(*p, 0, n); return (PetscErrorCode)0; }
static PetscErrorCode tr_free(void *p, int, const char[], const char[]) { free(p); return (PetscErrorCode)0; }
PetscErrorCode (*PetscTrMalloc)(size_t, PetscBool, int, const char[], const char[], void **) = tr_malloc;
PetscErrorCode (*PetscTrFree)(void *, int, const char[], const char[]) = tr_free;
PetscErrorCode PetscMallocValidate(int, const char[], const char[]) { return (PetscErrorCode)0; }

// ---------------------------------------------------------------- options
struct opt_entry { const char *name; int i; double d; int kind; const char *s; };
static opt_entry g_opt[64];
static int g_nopt = 0;
static opt_entry *find_opt(const char *n) { for (int i = g_nopt - 1; i >= 0; --i) if (strcmp(g_opt[i].name, n) == 0) return &g_opt[i]; return nullptr; }
void hx_opt_int(const char *n, int v) { g_opt[g_nopt].name = n; g_opt[g_nopt].i = v; g_opt[g_nopt++].kind = 0; }
void hx_opt_real(const char *n, double v) { g_opt[g_nopt].name = n; g_opt[g_nopt].d = v; g_opt[g_nopt++].kind = 1; }
void hx_opt_bool(const char *n, int v) { g_opt[g_nopt].name = n; g_opt[g_nopt].i = v; g_opt[g_nopt++].kind = 2; }
void hx_opt_str(const char *n, const char *v)
{
    int l = 0;
    while (n[l]) ++l;
    if (l > 8 && !strcmp(n + l - 8, "ksp_type") && !strcmp(v, "preonly")) g_preonly = 1;
    else if (l < 7 || strcmp(n + l - 7, "pc_type")) sx_fail("unmodelled-option");
    g_opt[g_nopt].name = n; g_opt[g_nopt].s = v; g_opt[g_nopt++].kind = 3;
}
// "-" prefix what
static const char *ksp_option(KSP k, const char *what)
{
    for (int i = g_nopt - 1; i >= 0; --i)
    {
        if (g_opt[i].kind != 3) continue;
        const char *o = g_opt[i].name, *p = k->prefix;
        if (*o++ != '-') continue;
        while (*p && *o == *p) { ++o; ++p; }
        if (!*p && !strcmp(o, what)) return g_opt[i].s;
    }
    return nullptr;
}
PetscErrorCode PetscOptionsBegin_Private(PetscOptionItems *, MPI_Comm, const char[], const char[], const char[]) { return (PetscErrorCode)0; }
PetscErrorCode PetscOptionsEnd_Private(PetscOptionItems *) { return (PetscErrorCode)0; }
PetscErrorCode PetscOptionsInt_Private(PetscOptionItems *, const char n[], const char[], const char[], PetscInt cur, PetscInt *v, PetscBool *set, PetscInt, PetscInt)
{
    opt_entry *e = find_opt(n); if (set) *set = e ? PETSC_TRUE : PETSC_FALSE; if (e) *v = e->i; return (PetscErrorCode)0;
}
PetscErrorCode PetscOptionsReal_Private(PetscOptionItems *, const char n[], const char[], const char[], PetscReal, PetscReal *v, PetscBool *set)
{
    opt_entry *e = find_opt(n); if (set) *set = e ? PETSC_TRUE : PETSC_FALSE; if (e) *v = e->d; return (PetscErrorCode)0;
}
PetscErrorCode PetscOptionsBool_Private(PetscOptionItems *, const char n[], const char[], const char[], PetscBool, PetscBool *v, PetscBool *set)
{
    opt_entry *e = find_opt(n); if (set) *set = e ? PETSC_TRUE : PETSC_FALSE; if (e) *v = e->i ? PETSC_TRUE : PETSC_FALSE; return (PetscErrorCode)0;
}

// ---------------------------------------------------------------- MPI
int MPI_Comm_size(MPI_Comm, int *n) { *n = nranks(); return 0; }
int MPI_Comm_rank(MPI_Comm, int *r) { *r = me(); return 0; }
static int elem(MPI_Datatype t)
{
    if (t == MPI_DOUBLE) return 8;
    if (t == MPI_INT) return 4;
    if (t == MPI_UNSIGNED_LONG || t == MPI_LONG) return 8;
    if (t == MPI_BYTE || t == MPI_CHAR) return 1;
    if (t == MPI_UNSIGNED) return 4;
    sx_fail("unmodelled-mpi-type");
    return 8;
}
static const void *g_src[MAXR];
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm)
{
    int es = elem(t), me_ = me(), R = nranks();
    if (es == 1) sx_fail("unmodelled-mpi-type");
    char *tmp = (char *)malloc((size_t)n * es + 1);
    memcpy(tmp, s == MPI_IN_PLACE ? r : s, (size_t)n * es);
    bool f;
    if (R > 1) { coll(31, f, n, es); }
    g_src[me_] = tmp;
    if (R > 1) sx_barrier();
    for (int i = 0; i < n; ++i)
    {
        if (es == 8 && t == MPI_DOUBLE)
        {
            double acc = ((const double *)g_src[0])[i];
            for (int q = 1; q < R; ++q)
            {
                double x = ((const double *)g_src[q])[i];
                if (op == MPI_SUM) acc += x;
                else if (op == MPI_MAX) acc = x > acc ? x : acc;
                else if (op == MPI_MIN) acc = x < acc ? x : acc;
                else if (op == MPI_PROD) acc *= x;
                else sx_fail("unmodelled-mpi-op");
            }
            ((double *)r)[i] = acc;
        }
        else if (es == 4)
        {
            int acc = ((const int *)g_src[0])[i];
            for (int q = 1; q < R; ++q)
            {
                int x = ((const int *)g_src[q])[i];
                if (op == MPI_SUM) acc += x;
                else if (op == MPI_MAX) acc = x > acc ? x : acc;
                else if (op == MPI_MIN) acc = x < acc ? x : acc;
                else if (op == MPI_PROD) acc *= x;
                else if (op == MPI_LOR) acc = acc || x;
                else if (op == MPI_LAND) acc = acc && x;
                else sx_fail("unmodelled-mpi-op");
            }
            ((int *)r)[i] = acc;
        }
        else
        {
            long acc = ((const long *)g_src[0])[i];
            for (int q = 1; q < R; ++q) { if (op != MPI_SUM) sx_fail("unmodelled-mpi-op"); acc += ((const long *)g_src[q])[i]; }
            ((long *)r)[i] = acc;
        }
    }
    if (R > 1) sx_barrier();
    free(tmp);
    return 0;
}
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op, MPI_Comm)
{
    if (elem(t) != 4) sx_fail("unmodelled-scan");
    int me_ = me(), R = nranks();
    bool f;
    int *tmp = (int *)malloc(n * 4 + 1);
    memcpy(tmp, s, (size_t)n * 4);
    if (R > 1) coll(32, f, n);
    g_src[me_] = tmp;
    if (R > 1) sx_barrier();
    for (int i = 0; i < n; ++i) { int a = 0; for (int q = 0; q <= me_; ++q) a += ((const int *)g_src[q])[i]; ((int *)r)[i] = a; }
    if (R > 1) sx_barrier();
    free(tmp);
    return 0;
}
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int, MPI_Datatype, int root, MPI_Comm)
{
    int es = elem(t), me_ = me(), R = nranks();
    bool f;
    if (R > 1) coll(33, f, n, root);
    g_src[me_] = s;
    if (R > 1) sx_barrier();
    if (me_ == root) for (int q = 0; q < R; ++q) memcpy((char *)r + (size_t)q * n * es, g_src[q], (size_t)n * es);
    if (R > 1) sx_barrier();
    return 0;
}
int MPI_Barrier(MPI_Comm) { collective(34); return 0; }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
    void *tmp = malloc((size_t)n * elem(t) + 1);
    MPI_Allreduce(s == MPI_IN_PLACE ? r : s, tmp, n, t, op, c);
    if (me() == root) memcpy(r, tmp, (size_t)n * elem(t));
    free(tmp);
    return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm)
{
    int es = elem(t), me_ = me(), R = nranks();
    bool f;
    if (R == 1) return 0;
    coll(35, f, n, root);
    g_src[me_] = b;
    sx_barrier();
    if (me_ != root) memcpy(b, g_src[root], (size_t)n * es);
    sx_barrier();
    return 0;
}
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int, MPI_Datatype, MPI_Comm)
{
    int es = elem(t), me_ = me(), R = nranks();
    bool f;
    if (s == MPI_IN_PLACE) s = (char *)r + (size_t)me_ * n * es;
    char *tmp = (char *)malloc((size_t)n * es + 1);
    memcpy(tmp, s, (size_t)n * es);
    if (R > 1) coll(36, f, n);
    g_src[me_] = tmp;
    if (R > 1) sx_barrier();
    for (int q = 0; q < R; ++q) memcpy((char *)r + (size_t)q * n * es, g_src[q], (size_t)n * es);
    if (R > 1) sx_barrier();
    free(tmp);
    return 0;
}
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    if (elem(t) != 4) sx_fail("unmodelled-scan");
    int *tmp = (int *)malloc(n * 4 + 1);
    MPI_Scan(s, tmp, n, t, op, c);
    if (me()) for (int i = 0; i < n; ++i) ((int *)r)[i] = tmp[i] - ((const int *)s)[i];
    free(tmp);
    return 0;
}
double MPI_Wtime() { return 0.; }
PetscErrorCode PetscPrintf(MPI_Comm, const char[], ...) { return (PetscErrorCode)0; }
PetscErrorCode PetscSynchronizedPrintf(MPI_Comm, const char[], ...) { return (PetscErrorCode)0; }
PetscErrorCode PetscSynchronizedFlush(MPI_Comm, FILE *) { collective(49); return (PetscErrorCode)0; }
PetscErrorCode PetscOptionsHasName(PetscOptions, const char pre[], const char n[], PetscBool *set) { if (pre) sx_fail("unmodelled-option-prefix"); *set = find_opt(n) ? PETSC_TRUE : PETSC_FALSE; return (PetscErrorCode)0; }
PetscErrorCode PetscOptionsGetInt(PetscOptions, const char pre[], const char n[], PetscInt *v, PetscBool *set) { if (pre) sx_fail("unmodelled-option-prefix"); return PetscOptionsInt_Private(nullptr, n, "", "", 0, v, set, 0, 0); }
PetscErrorCode PetscOptionsGetReal(PetscOptions, const char pre[], const char n[], PetscReal *v, PetscBool *set) { if (pre) sx_fail("unmodelled-option-prefix"); return PetscOptionsReal_Private(nullptr, n, "", "", 0, v, set); }
PetscErrorCode PetscOptionsGetBool(PetscOptions, const char pre[], const char n[], PetscBool *v, PetscBool *set) { if (pre) sx_fail("unmodelled-option-prefix"); return PetscOptionsBool_Private(nullptr, n, "", "", PETSC_FALSE, v, set); }
} // extern C
