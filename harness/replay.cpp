// Native side of the harness API: runs the same harness against cafes compiled
// with the installed PETSc, with the inputs of a counterexample (or of a
// recorded path) taken from the file named by SX_REPLAY.
//   V name value    input
//   O name value    value the symbolic run predicts for sx_observe(name)
// Exit status: 0 every assertion held, 3 an assertion failed, 4 an assumption
// did not hold for the given inputs, 5 a predicted value differs.
#include <petsc.h>
#include <dlfcn.h>
#include <hx.h>
#include <symx.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <iostream>
#include <sstream>
#include <vector>

static std::map<std::string, double> V, O;
static std::map<std::string, int> CFG;
static int g_fail = 0, g_assume = 0, g_trace_ok = 0, g_trace_bad = 0, g_rank = 0, g_size = 1, g_err = 0, g_n = 0;
static double g_tol = 1e-7;
static std::map<std::string, int> reached;

static double hashed(const std::string &s)
{
    unsigned long h = 1469598103934665603UL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211UL;
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9UL; h ^= h >> 32;
    return (double)(h % 2000001UL) / 1e6 - 1.;
}
static std::string nm(const char *n, int a, int b, int c) { return std::string(n) + "_" + std::to_string(a) + "_" + std::to_string(b) + "_" + std::to_string(c); }
static void fail(const char *kind, const char *label, int tag, double a, double b)
{
    ++g_fail;
    if (g_fail <= 40) std::fprintf(stderr, "REPLAY-FAIL %s rank %d tag %d %s %.17g %.17g\n", label, g_rank, tag, kind, a, b);
}
extern "C" {
double sx_real(const char *n, int a, int b, int c) { auto s = nm(n, a, b, c); auto it = V.find(s); return it != V.end() ? it->second : 2 * hashed(s); }
double sx_real_pos(const char *n, int a, int b, int c) { auto s = nm(n, a, b, c); auto it = V.find(s); return it != V.end() ? it->second : 1.25 + hashed(s); }
int sx_int(const char *n, int a, int lo, int hi) { auto s = std::string(n) + "_" + std::to_string(a); auto it = V.find(s); return it != V.end() ? (int)std::lround(it->second) : lo; }
int sx_choose(const char *n, int a, int lo, int hi) { return sx_int(n, a, lo, hi); }
int sx_cfg(const char *n, int d) { auto it = CFG.find(n); return it != CFG.end() ? it->second : d; }
int sx_conc(int x) { return x; }
void sx_assume(bool c) { if (!c) { if (!g_assume) std::fprintf(stderr, "REPLAY-ASSUME rank %d\n", g_rank); ++g_assume; } }
void sx_assume_eq(double a, double b) { sx_assume(std::fabs(a - b) <= 1e-9 * (1. + std::fabs(a) + std::fabs(b))); }
void sx_assert(bool c, const char *l, int t) { ++g_n; if (!c) fail("false", l, t, 0, 0); }
void sx_assert_eq(double a, double b, const char *l, int t)
{
    ++g_n;
    if (!(std::fabs(a - b) <= g_tol * (1. + std::fabs(a) + std::fabs(b)))) fail("!=", l, t, a, b);
}
void sx_assert_le(double a, double b, const char *l, int t) { ++g_n; if (!(a <= b + g_tol * (1. + std::fabs(a) + std::fabs(b)))) fail(">", l, t, a, b); }
void sx_assert_eqi(long a, long b, const char *l, int t) { ++g_n; if (a != b) fail("!=", l, t, a, b); }
void sx_reach(const char *l) { reached[l]++; }
void sx_observe(const char *n, int i, double v)
{
    auto it = O.find(std::string(n) + "_" + std::to_string(i));
    if (it == O.end()) return;
    if (std::fabs(v - it->second) <= 1e-6 * (1. + std::fabs(v) + std::fabs(it->second))) ++g_trace_ok;
    else { ++g_trace_bad; if (g_trace_bad < 10) std::fprintf(stderr, "TRACE-DIFF %s_%d real %.17g predicted %.17g\n", n, i, v, it->second); }
}
void sx_info(const char *, const char *) {}
void sx_strict_div(int) {}
double sx_diff(double, double) { return 0; }
void sx_diff_rule(double, double, double) {}
void sx_numeric(int) {}
int sx_rank() { return g_rank; }
int sx_size() { return g_size; }
void sx_run_ranks(int n, void (*fn)())
{
    if (n != g_size) { std::fprintf(stderr, "REPLAY-BADSIZE want %d have %d\n", n, g_size); std::exit(6); }
    fn();
}
void sx_barrier() { MPI_Barrier(MPI_COMM_WORLD); }
void sx_fail(const char *w) { fail("fail", w, 0, 0, 0); }
void sx_print(const char *w, long v) { std::fprintf(stderr, "[%d] %s %ld\n", g_rank, w, v); }
void sx_printd(const char *w, double v) { std::fprintf(stderr, "[%d] %s %.17g\n", g_rank, w, v); }
int sx_symbolic() { return 0; }

int hx_petsc_errors() { return g_err; }
void hx_opt_int(const char *n, int v) { PetscOptionsSetValue(nullptr, n, std::to_string(v).c_str()); }
void hx_opt_real(const char *n, double v) { char b[64]; std::snprintf(b, sizeof b, "%.17g", v); PetscOptionsSetValue(nullptr, n, b); }
void hx_opt_bool(const char *n, int v) { PetscOptionsSetValue(nullptr, n, v ? "true" : "false"); }
// reads the file back through the HDF5 library that PETSc is linked to
static std::map<std::string, std::pair<std::vector<int>, std::vector<double>>> g_read;
static std::pair<std::vector<int>, std::vector<double>> *read_h5(const char *file, const char *name)
{
    std::string k = std::string(file) + ":" + name;
    auto it = g_read.find(k);
    if (it != g_read.end()) return it->second.first.empty() ? nullptr : &it->second;
    auto &e = g_read[k];
    typedef int64_t hid;
#define H5(f, T) auto f = (T)dlsym(RTLD_DEFAULT, #f); if (!f) { std::fprintf(stderr, "no %s\n", #f); return nullptr; }
    H5(H5open, int (*)())
    H5(H5Fopen, hid (*)(const char *, unsigned, hid))
    H5(H5Fclose, int (*)(hid))
    H5(H5Dopen2, hid (*)(hid, const char *, hid))
    H5(H5Dclose, int (*)(hid))
    H5(H5Dget_space, hid (*)(hid))
    H5(H5Sget_simple_extent_dims, int (*)(hid, unsigned long long *, unsigned long long *))
    H5(H5Dread, int (*)(hid, hid, hid, hid, hid, void *))
    H5(H5T_NATIVE_DOUBLE_g, hid *)
#undef H5
    H5open();
    MPI_Barrier(PETSC_COMM_WORLD);
    hid f = H5Fopen(file, 0, 0);
    if (f < 0) return nullptr;
    hid d = H5Dopen2(f, name, 0);
    if (d >= 0)
    {
        unsigned long long n[32], tot = 1;
        int nd = H5Sget_simple_extent_dims(H5Dget_space(d), n, nullptr);
        for (int i = 0; i < nd; ++i) { e.first.push_back((int)n[i]); tot *= n[i]; }
        e.second.resize(tot);
        H5Dread(d, *H5T_NATIVE_DOUBLE_g, 0, 0, 0, e.second.data());
        H5Dclose(d);
    }
    H5Fclose(f);
    return e.first.empty() ? nullptr : &e;
}
int hx_saved(const char *file, const char *name, int *dims)
{
    auto *e = read_h5(file, name);
    if (!e) return -1;
    for (size_t i = 0; i < e->first.size(); ++i) dims[i] = e->first[i];
    return (int)e->first.size();
}
double hx_saved_at(const char *file, const char *name, long i) { auto *e = read_h5(file, name); return e->second[i]; }
void hx_opt_str(const char *n, const char *v) { PetscOptionsSetValue(nullptr, n, v); }

// Work vectors of a DM keep the values of their previous use: give them some.
PetscErrorCode DMGetGlobalVector(DM dm, Vec *v)
{
    static auto real = (PetscErrorCode(*)(DM, Vec *))dlsym(RTLD_NEXT, "DMGetGlobalVector");
    PetscErrorCode e = real(dm, v);
    PetscScalar *a; PetscInt n;
    if (!e && !VecGetArray(*v, &a)) { VecGetLocalSize(*v, &n); for (PetscInt i = 0; i < n; ++i) a[i] = 3. + hashed("g" + std::to_string(i)); VecRestoreArray(*v, &a); }
    return e;
}
PetscErrorCode DMGetLocalVector(DM dm, Vec *v)
{
    static auto real = (PetscErrorCode(*)(DM, Vec *))dlsym(RTLD_NEXT, "DMGetLocalVector");
    PetscErrorCode e = real(dm, v);
    PetscScalar *a; PetscInt n;
    if (!e && !VecGetArray(*v, &a)) { VecGetLocalSize(*v, &n); for (PetscInt i = 0; i < n; ++i) a[i] = 3. + hashed("l" + std::to_string(i)); VecRestoreArray(*v, &a); }
    return e;
}
#ifdef STRICT_ARRAYS
// Array views with one heap block per row, so that the address sanitizer sees
// an index that leaves the local region.
static PetscErrorCode strict_view(DM da, Vec v, void *out)
{
    DMDALocalInfo i; PetscInt n, gn, lo[3], m[3]; PetscScalar *a;
    DMDAGetLocalInfo(da, &i);
    VecGetLocalSize(v, &n);
    gn = i.dof * i.gxm * i.gym * i.gzm;
    MPI_Comm c; PetscMPIInt sz; PetscObjectGetComm((PetscObject)v, &c); MPI_Comm_size(c, &sz);
    bool loc = (n == gn) && (n != i.dof * i.xm * i.ym * i.zm || sz == 1);
    if (loc) { lo[0] = i.gxs; lo[1] = i.gys; lo[2] = i.gzs; m[0] = i.gxm; m[1] = i.gym; m[2] = i.gzm; }
    else { lo[0] = i.xs; lo[1] = i.ys; lo[2] = i.zs; m[0] = i.xm; m[1] = i.ym; m[2] = i.zm; }
    VecGetArray(v, &a);
    if (i.dim == 2)
    {
        auto rows = (double ***)std::malloc(m[1] * sizeof(void *));
        for (int j = 0; j < m[1]; ++j)
        {
            auto row = (double **)std::malloc(m[0] * sizeof(void *));
            for (int k = 0; k < m[0]; ++k) row[k] = a + i.dof * (j * m[0] + k);
            rows[j] = row - lo[0];
        }
        *(double ****)out = rows - lo[1];
    }
    else
    {
        auto pl = (double ****)std::malloc(m[2] * sizeof(void *));
        for (int l = 0; l < m[2]; ++l)
        {
            auto rows = (double ***)std::malloc(m[1] * sizeof(void *));
            for (int j = 0; j < m[1]; ++j)
            {
                auto row = (double **)std::malloc(m[0] * sizeof(void *));
                for (int k = 0; k < m[0]; ++k) row[k] = a + i.dof * ((l * m[1] + j) * m[0] + k);
                rows[j] = row - lo[0];
            }
            pl[l] = rows - lo[1];
        }
        *(double *****)out = pl - lo[2];
    }
    return (PetscErrorCode)0;
}
PetscErrorCode DMDAVecGetArrayDOF(DM da, Vec v, void *o) { return strict_view(da, v, o); }
PetscErrorCode DMDAVecGetArrayDOFRead(DM da, Vec v, void *o) { return strict_view(da, v, o); }
PetscErrorCode DMDAVecRestoreArrayDOF(DM, Vec v, void *) { PetscScalar *a = nullptr; return VecRestoreArray(v, &a); }
PetscErrorCode DMDAVecRestoreArrayDOFRead(DM, Vec v, void *) { PetscScalar *a = nullptr; return VecRestoreArray(v, &a); }
#endif
}
static PetscErrorCode on_error(MPI_Comm, int, const char *, const char *, PetscErrorCode n, PetscErrorType p, const char *, void *)
{
    if (p == PETSC_ERROR_INITIAL) ++g_err;
    return n;
}
int main(int argc, char **argv)
{
    PetscInitialize(&argc, &argv, nullptr, nullptr);
    PetscPopSignalHandler();
    MPI_Comm_rank(MPI_COMM_WORLD, &g_rank);
    MPI_Comm_size(MPI_COMM_WORLD, &g_size);
    if (const char *t = std::getenv("SX_TOL")) g_tol = std::atof(t);
    if (const char *c = std::getenv("SX_CFG"))
    {
        std::istringstream is(c);
        std::string kv;
        while (is >> kv) { auto q = kv.find('='); CFG[kv.substr(0, q)] = std::atoi(kv.c_str() + q + 1); }
    }
    if (const char *f = std::getenv("SX_REPLAY"))
    {
        std::ifstream is(f);
        std::string line, k, n, v;
        while (std::getline(is, line))
        {
            std::istringstream ls(line);
            if (line[0] != '#' && ls >> k >> n >> v) (k == "V" ? V : O)[n] = std::atof(v.c_str());
        }
    }
    PetscPushErrorHandler(on_error, nullptr);
    std::cout.setstate(std::ios::failbit);
    try { sx_main(); }
    catch (std::exception &e) { fail(e.what(), "exception", 0, 0, 0); }
    int loc[5] = {g_fail, g_assume, g_trace_ok, g_trace_bad, g_n}, tot[5];
    MPI_Allreduce(loc, tot, 5, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    if (g_rank == 0)
    {
        std::string rs;
        for (auto &r : reached) rs += " " + r.first;
        std::fprintf(stderr, "REPLAY-DONE fails %d assumes %d traces_ok %d traces_bad %d asserts %d reached%s\n", tot[0], tot[1], tot[2], tot[3], tot[4], rs.c_str());
    }
    int rc = tot[0] ? 3 : tot[1] ? 4 : tot[3] ? 5 : 0;
    std::fflush(nullptr);
    MPI_Finalize();
    std::_Exit(rc);
}
