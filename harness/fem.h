// Shared by the finite element harnesses: filling and reading distributed
// fields by grid point, and an independent definition of the discrete
// operators from one dimensional Q1 integrals.
#pragma once
#include <cafes.hpp>
#include <hx.h>
#include <symx.h>
#include <array>
using namespace cafes;

namespace fx
{
template<int D> using ivec = std::array<int, D>;

// ------------------------------------------------------------------ grids
template<int D> struct grid
{
    ivec<D> n;   // points
    ivec<D> per; // periodic
    int lin(const ivec<D> &p) const
    {
        int r = 0;
        for (int d = D - 1; d >= 0; --d) r = r * n[d] + p[d];
        return r;
    }
    int size() const { int r = 1; for (int d = 0; d < D; ++d) r *= n[d]; return r; }
    ivec<D> pos(int l) const { ivec<D> p; for (int d = 0; d < D; ++d) { p[d] = l % n[d]; l /= n[d]; } return p; }
    // wraps p; false if outside a non periodic direction
    bool norm(ivec<D> &p) const
    {
        for (int d = 0; d < D; ++d)
        {
            if (per[d]) p[d] = (p[d] + 4 * n[d]) % n[d];
            else if (p[d] < 0 || p[d] >= n[d]) return false;
        }
        return true;
    }
    // element whose lowest corner is e exists
    bool elem(const ivec<D> &e) const
    {
        for (int d = 0; d < D; ++d) if (!per[d] && (e[d] < 0 || e[d] + 1 >= n[d])) return false;
        return true;
    }
    bool face(const ivec<D> &p, int f) const
    {
        int d = f / 2;
        if (per[d]) return false;
        return f % 2 ? p[d] == n[d] - 1 : p[d] == 0;
    }
};
template<int D> grid<D> grid_of(DM dm)
{
    DMDALocalInfo i;
    DMDAGetLocalInfo(dm, &i);
    int M[3] = {i.mx, i.my, i.mz};
    DMBoundaryType b[3] = {i.bx, i.by, i.bz};
    grid<D> g;
    for (int d = 0; d < D; ++d) { g.n[d] = M[d]; g.per[d] = b[d] == DM_BOUNDARY_PERIODIC; }
    return g;
}
// the grids the documentation promises: pressure mx points, velocity 2 mx - 1,
// one less in a periodic direction
template<int D> grid<D> velocity_grid(const ivec<D> &m, const ivec<D> &per)
{
    grid<D> g; g.per = per;
    for (int d = 0; d < D; ++d) g.n[d] = per[d] ? 2 * m[d] - 2 : 2 * m[d] - 1;
    return g;
}
template<int D> grid<D> pressure_grid(const ivec<D> &m, const ivec<D> &per)
{
    grid<D> g; g.per = per;
    for (int d = 0; d < D; ++d) g.n[d] = per[d] ? m[d] - 1 : m[d];
    return g;
}

inline double *cell_ptr(double ***a, const ivec<2> &p) { return a[p[1]][p[0]]; }
inline double *cell_ptr(double ****a, const ivec<3> &p) { return a[p[2]][p[1]][p[0]]; }
template<int D> struct arr;
template<> struct arr<2> { typedef double ***type; };
template<> struct arr<3> { typedef double ****type; };

// f(pos, pointer to the dofs) for every point this rank owns
template<int D, class F> void each_owned(DM dm, Vec v, F f)
{
    DMDALocalInfo i;
    DMDAGetLocalInfo(dm, &i);
    typename arr<D>::type a;
    DMDAVecGetArrayDOF(dm, v, &a);
    int s[3] = {i.xs, i.ys, i.zs}, m[3] = {i.xm, i.ym, i.zm};
    ivec<D> p;
    int tot = 1;
    for (int d = 0; d < D; ++d) tot *= m[d];
    for (int l = 0; l < tot; ++l)
    {
        int t = l;
        for (int d = 0; d < D; ++d) { p[d] = s[d] + t % m[d]; t /= m[d]; }
        f(p, cell_ptr(a, p));
    }
    DMDAVecRestoreArrayDOF(dm, v, &a);
}
// the same for entry e of a composite vector
template<int D, class F> void each_owned(DM comp, Vec v, int e, F f)
{
    DM dms[2];
    DMCompositeGetEntriesArray(comp, dms);
    Vec s[1];
    int w[1] = {e};
    DMCompositeGetAccessArray(comp, v, 1, w, s);
    each_owned<D>(dms[e], s[0], f);
    DMCompositeRestoreAccessArray(comp, v, 1, w, s);
}
// symbolic field value at grid point l, component d
inline double sym(const char *name, int l, int d) { return sx_real(name, l, d, 0); }
template<int D> void fill(DM comp, Vec v, int e, const char *name, int dof)
{
    DM dms[2];
    DMCompositeGetEntriesArray(comp, dms);
    auto g = grid_of<D>(dms[e]);
    each_owned<D>(comp, v, e, [&](const ivec<D> &p, double *u) { for (int d = 0; d < dof; ++d) u[d] = sym(name, g.lin(p), d); });
}
template<int D> void fill(DM dm, Vec v, const char *name, int dof)
{
    auto g = grid_of<D>(dm);
    each_owned<D>(dm, v, [&](const ivec<D> &p, double *u) { for (int d = 0; d < dof; ++d) u[d] = sym(name, g.lin(p), d); });
}

// ------------------------------------------------------------------ integrals
// one dimensional Q1 on a cell of length h
inline double M1(int a, int b, double h) { return a == b ? h / 3. : h / 6.; }
inline double K1(int a, int b, double h) { return a == b ? 1. / h : -1. / h; }
inline double G1(int a, int b) { return b ? .5 : -.5; } // int phi_a phi_b'
// pressure hat a on a cell of length 2h, velocity hat j on the two halves
inline double MP(int a, int j, double h)
{
    int k = a ? 2 - j : j;
    return h * (k == 0 ? 5. / 12. : k == 1 ? 1. / 2. : 1. / 12.);
}
inline double GP(int a, int j) // int psi_a phi_j'
{
    double v[3] = {-3. / 4., 1. / 2., 1. / 4.};
    return a ? -v[2 - j] : v[j];
}
template<int D> int bit(int a, int d) { return (a >> d) & 1; }
inline int tri(int j, int d) { for (int i = 0; i < d; ++i) j /= 3; return j % 3; }
template<int D> double mass(int a, int b, const std::array<double, D> &h)
{
    double r = 1.;
    for (int d = 0; d < D; ++d) r *= M1(bit<D>(a, d), bit<D>(b, d), h[d]);
    return r;
}
// int d_k phi_a d_k phi_b
template<int D> double stiff(int a, int b, int k, const std::array<double, D> &h)
{
    double r = 1.;
    for (int d = 0; d < D; ++d) r *= d == k ? K1(bit<D>(a, d), bit<D>(b, d), h[d]) : M1(bit<D>(a, d), bit<D>(b, d), h[d]);
    return r;
}
// int d_k phi_a d_l phi_b
template<int D> double grad2(int a, int b, int k, int l, const std::array<double, D> &h)
{
    if (k == l) return stiff<D>(a, b, k, h);
    double r = 1.;
    for (int d = 0; d < D; ++d)
        r *= d == k ? G1(bit<D>(b, d), bit<D>(a, d)) : d == l ? G1(bit<D>(a, d), bit<D>(b, d)) : M1(bit<D>(a, d), bit<D>(b, d), h[d]);
    return r;
}
template<int D> double lap(int a, int b, const std::array<double, D> &h)
{
    double r = 0;
    for (int k = 0; k < D; ++k) r += stiff<D>(a, b, k, h);
    return r;
}
// int (grad u + grad u^T) : grad v, test component d1 of node a, trial component d2 of node b
template<int D> double strain(int a, int b, int d1, int d2, const std::array<double, D> &h)
{
    double r = grad2<D>(a, b, d2, d1, h);
    if (d1 == d2) r += lap<D>(a, b, h);
    return r;
}
// int psi_a d_k phi_j over the coarse cell, h the velocity step
template<int D> double pdiv(int a, int j, int k, const std::array<double, D> &h)
{
    double r = 1.;
    for (int d = 0; d < D; ++d) r *= d == k ? GP(bit<D>(a, d), tri(j, d)) : MP(bit<D>(a, d), tri(j, d), h[d]);
    return r;
}
template<int D> constexpr int nq1() { return 1 << D; }
template<int D> constexpr int n4q1() { return D == 2 ? 9 : 27; }
template<int D> ivec<D> corner(int a) { ivec<D> p; for (int d = 0; d < D; ++d) p[d] = bit<D>(a, d); return p; }
template<int D> ivec<D> fine(int j) { ivec<D> p; for (int d = 0; d < D; ++d) p[d] = tri(j, d); return p; }
template<int D> ivec<D> add(const ivec<D> &a, const ivec<D> &b) { ivec<D> p; for (int d = 0; d < D; ++d) p[d] = a[d] + b[d]; return p; }
template<int D> ivec<D> sub(const ivec<D> &a, const ivec<D> &b) { ivec<D> p; for (int d = 0; d < D; ++d) p[d] = a[d] - b[d]; return p; }
template<int D> ivec<D> twice(const ivec<D> &a) { ivec<D> p; for (int d = 0; d < D; ++d) p[d] = 2 * a[d]; return p; }

// ------------------------------------------------------------------ operators
// sum over the elements that contain point p: w(a, b, q) with q the grid point of local node b
template<int D, class F> double around(const grid<D> &g, const ivec<D> &p, F w)
{
    double r = 0;
    for (int a = 0; a < nq1<D>(); ++a)
    {
        auto e = sub<D>(p, corner<D>(a));
        if (!g.elem(e)) continue;
        for (int b = 0; b < nq1<D>(); ++b)
        {
            auto q = add<D>(e, corner<D>(b));
            g.norm(q);
            r += w(a, b, q);
        }
    }
    return r;
}
enum { LAPLACIAN = 0, STRAIN = 1, MASS = 2 };
template<int D> double block(int op, const grid<D> &g, const ivec<D> &p, int d1, int dof, const std::array<double, D> &h, const char *x)
{
    return around<D>(g, p, [&](int a, int b, const ivec<D> &q) {
        int l = g.lin(q);
        if (op == LAPLACIAN) return lap<D>(a, b, h) * sym(x, l, d1);
        if (op == MASS) return mass<D>(a, b, h) * sym(x, l, d1);
        double r = 0;
        for (int d2 = 0; d2 < dof; ++d2) r += strain<D>(a, b, d1, d2, h) * sym(x, l, d2);
        return r;
    });
}
template<int D> double block_diag(int op, const grid<D> &g, const ivec<D> &p, const std::array<double, D> &h)
{
    double r = 0;
    for (int a = 0; a < nq1<D>(); ++a) if (g.elem(sub<D>(p, corner<D>(a)))) r += op == MASS ? mass<D>(a, a, h) : lap<D>(a, a, h);
    return r;
}
// - int p div v at velocity point q, component k, is this with the opposite sign
template<int D> double pressure_gradient(const grid<D> &gv, const grid<D> &gp, const ivec<D> &q, int k, const std::array<double, D> &h, const char *x)
{
    double r = 0;
    for (int j = 0; j < n4q1<D>(); ++j)
    {
        auto t = sub<D>(q, fine<D>(j));
        bool ok = true;
        ivec<D> e;
        for (int d = 0; d < D; ++d)
        {
            int c = t[d];
            if (gv.per[d]) c = (c + gv.n[d]) % gv.n[d];
            if (c < 0 || c % 2) ok = false;
            e[d] = c / 2;
        }
        if (!ok || !gp.elem(e)) continue;
        for (int a = 0; a < nq1<D>(); ++a)
        {
            auto p = add<D>(e, corner<D>(a));
            gp.norm(p);
            r += pdiv<D>(a, j, k, h) * sym(x, gp.lin(p), 0);
        }
    }
    return r;
}
template<int D> double divergence(const grid<D> &gv, const grid<D> &gp, const ivec<D> &p, const std::array<double, D> &h, const char *x)
{
    double r = 0;
    for (int a = 0; a < nq1<D>(); ++a)
    {
        auto e = sub<D>(p, corner<D>(a));
        if (!gp.elem(e)) continue;
        for (int d = 0; d < D; ++d) if (gp.per[d]) e[d] = (e[d] + gp.n[d]) % gp.n[d];
        for (int j = 0; j < n4q1<D>(); ++j)
        {
            auto q = add<D>(twice<D>(e), fine<D>(j));
            gv.norm(q);
            for (int k = 0; k < D; ++k) r += pdiv<D>(a, j, k, h) * sym(x, gv.lin(q), k);
        }
    }
    return r;
}

// ------------------------------------------------------------------ problem data
// boundary value of face f, component c: b0 + b1 x + b2 y (+ b3 z), any coefficients
template<int D, int F, int C> void bc_fn(const PetscReal *x, PetscScalar *u)
{
    double r = sx_real("bc", F, C, 0);
    for (int d = 0; d < D; ++d) r += sx_real("bc", F, C, d + 1) * x[d];
    *u = r;
}
template<int D> double bc_val(int f, int c, const std::array<double, D> &x)
{
    double r = sx_real("bc", f, c, 0);
    for (int d = 0; d < D; ++d) r += sx_real("bc", f, c, d + 1) * x[d];
    return r;
}
inline fem::dirichlet_conditions<2> make_bcs(std::integral_constant<int, 2>, int mask)
{
    condition_fn f[4][2] = {{bc_fn<2, 0, 0>, bc_fn<2, 0, 1>}, {bc_fn<2, 1, 0>, bc_fn<2, 1, 1>},
                            {bc_fn<2, 2, 0>, bc_fn<2, 2, 1>}, {bc_fn<2, 3, 0>, bc_fn<2, 3, 1>}};
    for (int i = 0; i < 4; ++i) for (int c = 0; c < 2; ++c) if (!((mask >> (2 * i + c)) & 1)) f[i][c] = nullptr;
    return make_bc<2>({{{f[0][0], f[0][1]}}, {{f[1][0], f[1][1]}}, {{f[2][0], f[2][1]}}, {{f[3][0], f[3][1]}}});
}
inline fem::dirichlet_conditions<3> make_bcs(std::integral_constant<int, 3>, int mask)
{
    condition_fn f[6][3] = {{bc_fn<3, 0, 0>, bc_fn<3, 0, 1>, bc_fn<3, 0, 2>}, {bc_fn<3, 1, 0>, bc_fn<3, 1, 1>, bc_fn<3, 1, 2>},
                            {bc_fn<3, 2, 0>, bc_fn<3, 2, 1>, bc_fn<3, 2, 2>}, {bc_fn<3, 3, 0>, bc_fn<3, 3, 1>, bc_fn<3, 3, 2>},
                            {bc_fn<3, 4, 0>, bc_fn<3, 4, 1>, bc_fn<3, 4, 2>}, {bc_fn<3, 5, 0>, bc_fn<3, 5, 1>, bc_fn<3, 5, 2>}};
    for (int i = 0; i < 6; ++i) for (int c = 0; c < 3; ++c) if (!((mask >> (3 * i + c)) & 1)) f[i][c] = nullptr;
    return make_bc<3>({{{f[0][0], f[0][1], f[0][2]}}, {{f[1][0], f[1][1], f[1][2]}}, {{f[2][0], f[2][1], f[2][2]}},
                       {{f[3][0], f[3][1], f[3][2]}}, {{f[4][0], f[4][1], f[4][2]}}, {{f[5][0], f[5][1], f[5][2]}}});
}
template<int D> bool constrained(const grid<D> &g, const ivec<D> &p, int c, int mask)
{
    for (int f = 0; f < 2 * D; ++f) if (((mask >> (D * f + c)) & 1) && g.face(p, f)) return true;
    return false;
}

inline const char *opt_m(int d) { return d == 0 ? "-mx" : d == 1 ? "-my" : "-mz"; }
inline const char *opt_l(int d) { return d == 0 ? "-Lx" : d == 1 ? "-Ly" : "-Lz"; }
inline const char *opt_p(int d) { return d == 0 ? "-xperiod" : d == 1 ? "-yperiod" : "-zperiod"; }
inline const char *cfg_m(int d) { return d == 0 ? "mx" : d == 1 ? "my" : "mz"; }
struct setup { int dim, per, np; };
// 1 while another problem is treated first in the same program: nothing of it may be left for the one that follows
inline int &round_of() { static int r[16]; return r[sx_rank()]; }
inline int cfg(const char *name, const char *other, int def) { return round_of() ? sx_cfg(other, sx_cfg(name, def)) : sx_cfg(name, def); }
inline void observe(const char *name, int i, double v) { if (!round_of()) sx_observe(name, i, v); }
template<class F> void after_another(F f)
{
    if (sx_cfg("first", 0)) { round_of() = 1; f(); round_of() = 0; }
    f();
}
template<int D> struct domain
{
    ivec<D> m, per;
    std::array<double, D> L, hu, hp;
    grid<D> gv, gp;
    domain()
    {
        int pm = fx::cfg("per", "per1", 0);
        for (int d = 0; d < D; ++d)
        {
            m[d] = sx_cfg(cfg_m(d), 4) + (d || !round_of() ? 0 : sx_cfg("first", 0) == 2 ? -1 : 1);
            per[d] = (pm >> d) & 1;
            L[d] = sx_real_pos("L", d, round_of(), 0);
            hp[d] = L[d] / (m[d] - 1);
            hu[d] = .5 * hp[d];
        }
        gv = velocity_grid<D>(m, per);
        gp = pressure_grid<D>(m, per);
    }
    // as command line options
    void options() const
    {
        for (int d = 0; d < D; ++d)
        {
            hx_opt_int(opt_m(d), m[d]);
            hx_opt_real(opt_l(d), L[d]);
            hx_opt_bool(opt_p(d), per[d]);
        }
    }
    std::array<PetscBool, D> pb() const { std::array<PetscBool, D> r; for (int d = 0; d < D; ++d) r[d] = per[d] ? PETSC_TRUE : PETSC_FALSE; return r; }
};
} // namespace fx
