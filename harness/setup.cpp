// C01/C07/C16/C21/C25/C28: meshes and their decomposition, distributed vectors,
// right-hand sides, options, level operators, pressure null space.
#include <fem.h>
using namespace fx;

template<int D> DMDALocalInfo info_of(DM dm) { DMDALocalInfo i; DMDAGetLocalInfo(dm, &i); return i; }
struct rng { int s, n, gs, gn, M; };
static rng dir(const DMDALocalInfo &i, int d)
{
    if (d == 0) return {i.xs, i.xm, i.gxs, i.gxm, i.mx};
    if (d == 1) return {i.ys, i.ym, i.gys, i.gym, i.my};
    return {i.zs, i.zm, i.gzs, i.gzm, i.mz};
}
static int sum_ranks(int x) { int r = 0; MPI_Allreduce(&x, &r, 1, MPI_INT, MPI_SUM, PETSC_COMM_WORLD); return r; }

// C01: any number of points
template<int D> void mesh()
{
    int pm = fx::cfg("per", "per1", 0), hi = sx_cfg("hi", 400), lo = sx_cfg("lo", 8);
    std::array<int, D> n;
    std::array<PetscBool, D> per;
    for (int d = 0; d < D; ++d) { n[d] = sx_int("n", d, lo, hi); per[d] = (pm >> d) & 1 ? PETSC_TRUE : PETSC_FALSE; }
    DM dm, dv, dp;
    fem::createMesh<D>(dm, n, per);
    DMCompositeGetEntries(dm, &dv, &dp);
    auto iv = info_of<D>(dv), ip = info_of<D>(dp);
    sx_assert_eqi(iv.dof, D, "mesh-dof", 0);
    sx_assert_eqi(ip.dof, 1, "mesh-dof", 1);
    long lv = D, lp = 1, tv = D, tp = 1;
    auto bv = fem::get_DM_bounds<D>(dv), bp = fem::get_DM_bounds<D>(dp);
    auto fv = fem::get_DM_bounds<D>(dv, false), fp = fem::get_DM_bounds<D>(dp, false);
    auto cv = fem::get_DM_bounds<D>(dm, 0), cp = fem::get_DM_bounds<D>(dm, 1, false);
    auto gb = fem::get_global_bounds<D>(dv);
    auto bt = fem::get_boundary_type<D>(dv);
    int all_v = 1, all_p = 1, own_v = 1;
    for (int d = 0; d < D; ++d)
    {
        rng v = dir(iv, d), p = dir(ip, d);
        sx_assert_eqi(p.M, per[d] ? n[d] - 1 : n[d], "pressure-points", d);
        sx_assert_eqi(v.M, per[d] ? 2 * n[d] - 2 : 2 * n[d] - 1, "velocity-points", d);
        sx_assert_eqi(gb[d], v.M, "global-bounds", d);
        fx::observe("vs", 10 * sx_rank() + d, v.s);
        fx::observe("vm", 10 * sx_rank() + d, v.n);
        fx::observe("pm", 10 * sx_rank() + d, p.n);
        fx::observe("gs", 10 * sx_rank() + d, v.gs);
        fx::observe("gm", 10 * sx_rank() + d, v.gn);
        sx_assert((bt[d] == DM_BOUNDARY_PERIODIC) == (per[d] == PETSC_TRUE), "boundary-type", d);
        // the same process owns a coarse point and the fine point at the same place
        sx_assert_eqi(v.s, 2 * p.s, "aligned-start", d);
        bool last = p.s + p.n == p.M && !per[d];
        sx_assert_eqi(v.s + v.n, last ? v.M : 2 * (p.s + p.n), "aligned-end", d);
        // bounds: owned points, and owned cells without the last point of a non periodic direction
        sx_assert_eqi(fv.bottom_left[d], v.s, "owned-points", d);
        sx_assert_eqi(fv.upper_right[d], v.s + v.n, "owned-points", d);
        sx_assert_eqi(fp.upper_right[d], p.s + p.n, "owned-points", d);
        sx_assert_eqi(bv.bottom_left[d], v.s, "owned-cells", d);
        sx_assert_eqi(bv.upper_right[d], last ? v.M - 1 : v.s + v.n, "owned-cells", d);
        sx_assert_eqi(bp.upper_right[d], last ? p.M - 1 : p.s + p.n, "owned-cells", 10 + d);
        sx_assert_eqi(cv.upper_right[d], bv.upper_right[d], "owned-cells", 20 + d);
        sx_assert_eqi(cv.bottom_left[d], bv.bottom_left[d], "owned-cells", 30 + d);
        sx_assert_eqi(cp.upper_right[d], fp.upper_right[d], "owned-cells", 40 + d);
        // any cell, any point
        int e = sx_int("cell", d, 0, hi), q = sx_int("point", d, 0, 2 * hi);
        sx_assume(e < (per[d] ? n[d] - 1 : n[d] - 1));
        sx_assume(q < v.M);
        // (no branches: one path for all cells)
        int in = (e >= bp.bottom_left[d]) & (e < bp.upper_right[d]);
        all_p &= in;
        all_v &= (2 * e >= bv.bottom_left[d]) & (2 * e < bv.upper_right[d]);
        own_v &= (q >= fv.bottom_left[d]) & (q < fv.upper_right[d]);
        // the corners of an owned cell are within the ghosted region on both grids
        sx_assert((in ^ 1) | ((e >= p.gs) & (e + 1 < p.gs + p.gn)), "ghosts-hold-cell", d);
        sx_assert((in ^ 1) | ((2 * e >= v.gs) & (2 * e + 2 < v.gs + v.gn)), "ghosts-hold-refined-cell", d);
        lv *= v.n; lp *= p.n; tv *= v.M; tp *= p.M;
    }
    sx_assert_eqi(sum_ranks(all_p), 1, "cell-owned-once", 0);
    sx_assert_eqi(sum_ranks(all_v), 1, "cell-owned-once", 1);
    sx_assert_eqi(sum_ranks(own_v), 1, "point-owned-once", 0);
    if (sx_cfg("sizes", 1))
    {
        int a, b;
        fem::get_DM_sizes(dm, a, b);
        sx_assert_eqi(a, lv + lp, "sizes", 0);
        sx_assert_eqi(b, tv + tp, "sizes", 1);
        fem::get_DM_sizes(dv, a, b);
        sx_assert_eqi(a, lv, "sizes", 2);
        sx_assert_eqi(b, tv, "sizes", 3);
    }
    DM lap;
    fem::createLaplacianMesh<D>(lap, n, per);
    auto il = info_of<D>(lap);
    sx_assert_eqi(il.dof, 1, "laplacian-mesh", 9);
    for (int d = 0; d < D; ++d) sx_assert_eqi(dir(il, d).M, per[d] ? n[d] - 1 : n[d], "laplacian-mesh", d);
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    sx_reach("mesh");
}

// C16: distributed vectors
template<int D> void vec_one(DM dm, DM da, int entry, bool composite, const grid<D> &g, int dof, const char *tag)
{
    Vec v;
    DMCreateGlobalVector(dm, &v);
    DM dms[2] = {da, da};
    auto put = [&](const char *name) {
        if (composite) { for (int e = 0; e < 2; ++e) fill<D>(dm, v, e, e == entry ? name : "other", e == 0 ? D : 1); }
        else fill<D>(dm, v, name, dof);
    };
    put("x");
    DMDALocalInfo i;
    DMDAGetLocalInfo(da, &i);
    {
        auto w = petsc::petsc_vec<D>(dm, v, entry, false);
        sx_assert_eqi(w.dof_, dof, "vector-dof", 0);
        w.global_to_local(INSERT_VALUES);
        // owned and ghost values; read through both kinds of index
        int tot = 1;
        for (int d = 0; d < D; ++d) tot *= dir(i, d).gn;
        for (int l = 0; l < tot; ++l)
        {
            int t = l;
            std::array<int, D> p;
            geometry::position<int, D> q;
            ivec<D> r;
            bool own = true;
            for (int d = 0; d < D; ++d)
            {
                rng x = dir(i, d);
                p[d] = x.gs + t % x.gn; t /= x.gn;
                q[d] = p[d]; r[d] = p[d];
                own = own && p[d] >= x.s && p[d] < x.s + x.n;
            }
            g.norm(r);
            auto const &cw = w;
            for (int d = 0; d < dof; ++d)
            {
                sx_assert_eq(w.at(p)[d], sym("x", g.lin(r), d), tag, dof * l + d);
                sx_assert_eq(w.at(q)[d], sym("x", g.lin(r), d), tag, dof * l + d);
                sx_assert_eq(cw.at(p)[d], sym("x", g.lin(r), d), tag, dof * l + d);
                sx_assert_eq(cw.at(q)[d], sym("x", g.lin(r), d), tag, dof * l + d);
                if (own) { sx_assert_eq(w.at_g(q)[d], sym("x", g.lin(r), d), "vector-global-access", dof * l + d); sx_assert_eq(cw.at_g(q)[d], sym("x", g.lin(r), d), "vector-global-access", dof * l + d); }
            }
        }
        // local contributions, added into what is there: copies of a point add up
        double base = sx_real("base", 0, 0, 0);
        w.fill(sx_real("fill", 0, 0, 0));
        for (int l = 0; l < tot; ++l)
        {
            int t = l;
            std::array<int, D> p;
            ivec<D> r;
            for (int d = 0; d < D; ++d) { rng x = dir(i, d); p[d] = x.gs + t % x.gn; t /= x.gn; r[d] = p[d]; }
            g.norm(r);
            for (int d = 0; d < dof; ++d) w.at(p)[d] += sym("y", g.lin(r), d);
        }
        w.fill_global(base);
        w.local_to_global(ADD_VALUES);
    }
    // how many local regions hold a point, counting wrapped copies
    Vec c;
    DMCreateGlobalVector(da, &c);
    {
        Vec lc;
        DMCreateLocalVector(da, &lc);
        VecSet(lc, 1.);
        DMLocalToGlobalBegin(da, lc, ADD_VALUES, c);
        DMLocalToGlobalEnd(da, lc, ADD_VALUES, c);
    }
    std::vector<double> cnt;
    each_owned<D>(da, c, [&](const ivec<D> &, double *u) { cnt.push_back(u[0]); });
    int k = 0;
    auto chk = [&](const ivec<D> &p, double *u) {
        for (int d = 0; d < dof; ++d)
        {
            double want = sx_real("base", 0, 0, 0) + cnt[k] * (sx_real("fill", 0, 0, 0) + sym("y", g.lin(p), d));
            sx_assert_eq(u[d], want, "vector-add", dof * g.lin(p) + d);
            fx::observe(composite ? entry ? "cp" : "cv" : dof > 1 ? "pv" : "pl", dof * g.lin(p) + d, u[d]);
        }
        ++k;
    };
    if (composite) each_owned<D>(dm, v, entry, chk); else each_owned<D>(dm, v, chk);
    // inserting owned values
    {
        auto w = petsc::petsc_vec<D>(dm, v, entry, false);
        w.fill(0.);
        each_owned<D>(da, c, [&](const ivec<D> &p, double *) {
            std::array<int, D> q;
            for (int d = 0; d < D; ++d) q[d] = p[d];
            for (int d = 0; d < dof; ++d) w.at(q)[d] = sym("z", g.lin(p), d);
        });
        w.local_to_global(INSERT_VALUES);
    }
    auto chk2 = [&](const ivec<D> &p, double *u) { for (int d = 0; d < dof; ++d) sx_assert_eq(u[d], sym("z", g.lin(p), d), "vector-insert", dof * g.lin(p) + d); };
    if (composite) each_owned<D>(dm, v, entry, chk2); else each_owned<D>(dm, v, chk2);
    // the other field is untouched
    if (composite)
        each_owned<D>(dm, v, 1 - entry, [&](const ivec<D> &p, double *u) {
            auto o = grid_of<D>(petsc::get_DM(dm, 1 - entry));
            for (int d = 0; d < (entry == 0 ? 1 : D); ++d) sx_assert_eq(u[d], sym("other", o.lin(p), d), "vector-other-field", o.lin(p));
        });
}
template<int D> void vectors()
{
    domain<D> o;
    DM dm, dv, dp, lap;
    fem::createMesh<D>(dm, o.m, o.pb());
    DMCompositeGetEntries(dm, &dv, &dp);
    vec_one<D>(dm, dv, 0, true, o.gv, D, "vector-local");
    vec_one<D>(dm, dp, 1, true, o.gp, 1, "vector-local");
    vec_one<D>(dv, dv, 0, false, o.gv, D, "vector-local");
    fem::createLaplacianMesh<D>(lap, o.m, o.pb());
    vec_one<D>(lap, lap, 0, false, o.gp, 1, "vector-local");
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    sx_reach("vectors");
}

// C07: right-hand side; the body force is any quadratic function of the position
template<int D, int C> void force_fn(const PetscReal *x, PetscScalar *u)
{
    double r = sx_real("force", C, 0, 0);
    int k = 1;
    for (int d = 0; d < D; ++d) { r += sx_real("force", C, k++, 0) * x[d]; for (int e = 0; e <= d; ++e) r += sx_real("force", C, k++, 0) * x[d] * x[e]; }
    *u = r;
}
template<int D> double force_at(int C, const std::array<double, D> &x)
{
    double r = sx_real("force", C, 0, 0);
    int k = 1;
    for (int d = 0; d < D; ++d) { r += sx_real("force", C, k++, 0) * x[d]; for (int e = 0; e <= d; ++e) r += sx_real("force", C, k++, 0) * x[d] * x[e]; }
    return r;
}
static fem::rhs_conditions<2> forces(std::integral_constant<int, 2>, int m) { return make_rhs<2>({{m & 1 ? force_fn<2, 0> : nullptr, m & 2 ? force_fn<2, 1> : nullptr}}); }
static fem::rhs_conditions<3> forces(std::integral_constant<int, 3>, int m) { return make_rhs<3>({{m & 1 ? force_fn<3, 0> : nullptr, m & 2 ? force_fn<3, 1> : nullptr, m & 4 ? force_fn<3, 2> : nullptr}}); }
template<int D> std::array<double, D> at(const ivec<D> &p, const std::array<double, D> &h) { std::array<double, D> x; for (int d = 0; d < D; ++d) x[d] = p[d] * h[d]; return x; }
template<int D> double load(const domain<D> &o, const ivec<D> &q, int d, int fmask)
{
    if (!((fmask >> d) & 1)) return 0;
    return around<D>(o.gv, q, [&](int a, int b, const ivec<D> &p) { return mass<D>(a, b, o.hu) * force_at<D>(d, at<D>(p, o.hu)); });
}
template<int D> void check_bc_value(const domain<D> &o, const ivec<D> &q, int d, int mask, double v, const char *tag)
{
    auto x = at<D>(q, o.hu);
    // where several conditioned faces meet, the value of one of them
    int nf = 0, f0 = 0;
    for (int f = 0; f < 2 * D; ++f) if (((mask >> (D * f + d)) & 1) && o.gv.face(q, f)) { ++nf; f0 = f; }
    if (nf == 1) sx_assert_eq(v, bc_val<D>(f0, d, x), tag, D * o.gv.lin(q) + d);
    else
    {
        double any = 1.;
        for (int f = 0; f < 2 * D; ++f) if (((mask >> (D * f + d)) & 1) && o.gv.face(q, f)) any *= v - bc_val<D>(f, d, x);
        sx_assert_eq(any, 0., "corner-value", D * o.gv.lin(q) + d);
    }
}
template<int D> void check_rhs(const domain<D> &o, DM dm, Vec rhs, int mask, int fmask)
{
    each_owned<D>(dm, rhs, 0, [&](const ivec<D> &q, double *v) {
        for (int d = 0; d < D; ++d)
        {
            fx::observe("rhs", D * o.gv.lin(q) + d, v[d]);
            if (constrained<D>(o.gv, q, d, mask)) check_bc_value<D>(o, q, d, mask, v[d], "boundary-value");
            else sx_assert_eq(v[d], load<D>(o, q, d, fmask), "load", D * o.gv.lin(q) + d);
        }
    });
    each_owned<D>(dm, rhs, 1, [&](const ivec<D> &q, double *v) { sx_assert_eq(v[0], 0., "pressure-load", o.gp.lin(q)); });
}
static void rhs2()
{
    domain<2> o;
    o.options();
    int mask = fx::cfg("mask", "mask1", 255), fmask = fx::cfg("fmask", "fmask1", 3);
    hx_opt_bool("-assembling", sx_cfg("assembled", 0));
    auto s = make_stokes<2>(make_bcs(std::integral_constant<int, 2>{}, mask), forces(std::integral_constant<int, 2>{}, fmask));
    s.setup_RHS();
    check_rhs<2>(o, s.ctx->dm, s.rhs, mask, fmask);
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    sx_reach("rhs");
}
template<int D> void rhs_pieces()
{
    domain<D> o;
    int mask = fx::cfg("mask", "mask1", (1 << (2 * D * D)) - 1), fmask = fx::cfg("fmask", "fmask1", (1 << D) - 1);
    DM dm;
    fem::createMesh<D>(dm, o.m, o.pb());
    Vec rhs;
    DMCreateGlobalVector(dm, &rhs);
    fem::set_rhs<D, 1>(dm, rhs, forces(std::integral_constant<int, D>{}, fmask), o.hu);
    {
        auto r = petsc::petsc_vec<D>(dm, rhs, 0);
        fem::SetDirichletOnRHS(r, make_bcs(std::integral_constant<int, D>{}, mask), o.hu);
    }
    check_rhs<D>(o, dm, rhs, mask, fmask);
    // homogeneous conditions
    Vec w;
    DMCreateGlobalVector(dm, &w);
    fill<D>(dm, w, 0, "w", D);
    fill<D>(dm, w, 1, "wp", 1);
    {
        auto r = petsc::petsc_vec<D>(dm, w, 0);
        fem::SetNullDirichletOnRHS(r, make_bcs(std::integral_constant<int, D>{}, mask));
    }
    each_owned<D>(dm, w, 0, [&](const ivec<D> &q, double *v) {
        for (int d = 0; d < D; ++d) sx_assert_eq(v[d], constrained<D>(o.gv, q, d, mask) ? 0. : sym("w", o.gv.lin(q), d), "null-boundary-value", D * o.gv.lin(q) + d);
    });
    each_owned<D>(dm, w, 1, [&](const ivec<D> &q, double *v) { sx_assert_eq(v[0], sym("wp", o.gp.lin(q), 0), "null-boundary-value", 100000 + o.gp.lin(q)); });
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    sx_reach("rhs");
}

// C21: options; any values, any subset given
template<int D> void opts()
{
    int given = sx_cfg("given", 0xffff);
    static const char *im[3] = {"-mx", "-my", "-mz"}, *rl[3] = {"-Lx", "-Ly", "-Lz"}, *bp[3] = {"-xperiod", "-yperiod", "-zperiod"}, *fl[3] = {"-strain_tensor", "-assembling", "-PMM"};
    int m[3], b[3], f[3], k = 0;
    double l[3];
    for (int d = 0; d < D; ++d)
    {
        m[d] = 17; l[d] = 1.; b[d] = 0;
        if ((given >> k++) & 1) { m[d] = sx_int("m", d, 2, 100000); hx_opt_int(im[d], m[d]); }
        if ((given >> k++) & 1) { l[d] = sx_real_pos("L", d, 0, 0); hx_opt_real(rl[d], l[d]); }
        if ((given >> k++) & 1) { b[d] = sx_choose("per", d, 0, 1); hx_opt_bool(bp[d], b[d]); }
    }
    for (int d = 0; d < 3; ++d) { f[d] = 0; if ((given >> k++) & 1) { f[d] = sx_choose("flag", d, 0, 1); hx_opt_bool(fl[d], f[d]); } }
    problem::options<D> o{};
    o.process_options();
    for (int d = 0; d < D; ++d)
    {
        sx_assert_eqi(o.mx[d], m[d], "option-points", d);
        fx::observe("mx", d, o.mx[d]);
        fx::observe("lx", d, o.lx[d]);
        fx::observe("xp", d, o.xperiod[d]);
        sx_assert_eq(o.lx[d], l[d], "option-length", d);
        sx_assert_eqi(o.xperiod[d], b[d], "option-periodic", d);
    }
    sx_assert_eqi(o.strain_tensor, f[0], "option-strain", 0);
    sx_assert_eqi(o.assembling, f[1], "option-assembling", 0);
    sx_assert_eqi(o.pmm, f[2], "option-pmm", 0);
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    sx_reach("options");
}

// C25: level operators of the multigrid preconditioner
template<int D, class F> void each_level(domain<D> const &o, DM dv, int nl, int st, int mask, F operators)
{
    DM dc = dv;
    grid<D> g = o.gv;
    auto h = o.hu;
    for (int l = 0; l <= nl; ++l)
    {
        KSP k;
        Mat A, P;
        KSPCreate(PETSC_COMM_WORLD, &k);
        KSPSetDM(k, dc);
        MatCreate(PETSC_COMM_WORLD, &A);
        MatCreate(PETSC_COMM_WORLD, &P);
        operators(k, A, P);
        Vec x, y;
        DMCreateGlobalVector(dc, &x);
        VecDuplicate(x, &y);
        const char *nm[3] = {"x0", "x1", "x2"};
        fill<D>(dc, x, nm[l], D);
        MatSetUp(A);
        MatMult(A, x, y);
        each_owned<D>(dc, y, [&](const ivec<D> &q, double *v) {
            for (int d = 0; d < D; ++d)
            {
                int i = g.lin(q);
                fx::observe(nm[l], D * i + d, v[d]);
                if (constrained<D>(g, q, d, mask)) sx_assert_eq(v[d], sym(nm[l], i, d), "level-dirichlet-row", 10000 * l + D * i + d);
                else sx_assert_eq(v[d], block<D>(st, g, q, d, D, h, nm[l]), "level-operator", 10000 * l + D * i + d);
            }
        });
        MatGetDiagonal(A, y);
        each_owned<D>(dc, y, [&](const ivec<D> &q, double *v) {
            for (int d = 0; d < D; ++d) sx_assert_eq(v[d], block_diag<D>(LAPLACIAN, g, q, h), "level-diagonal", 10000 * l + D * g.lin(q) + d);
        });
        if (l < nl)
        {
            DM n;
            DMCoarsen(dc, PETSC_COMM_WORLD, &n);
            dc = n;
            for (int d = 0; d < D; ++d) { g.n[d] = g.per[d] ? g.n[d] / 2 : (g.n[d] + 1) / 2; h[d] *= 2; }
        }
    }
}
template<int D> void levels()
{
    domain<D> o;
    int mask = fx::cfg("mask", "mask1", D == 2 ? 255 : (1 << 18) - 1), nl = sx_cfg("levels", 1), st = fx::cfg("strain", "strain1", 0);
    using Ctx = problem::context<D>;
    DM mesh, dv, dp;
    fem::createMesh<D>(mesh, o.m, o.pb());
    DMCompositeGetEntries(mesh, &dv, &dp);
    PetscErrorCode (*method)(petsc::petsc_vec<D> &, petsc::petsc_vec<D> &, std::array<double, D> const &);
    if (st) method = fem::strain_tensor_mult; else method = fem::laplacian_mult;
    Ctx *c = new Ctx{dv, o.hu, method, fem::diag_laplacian_mult};
    c->set_dirichlet_bc(make_bcs(std::integral_constant<int, D>{}, mask));
    each_level<D>(o, dv, nl, st, mask, [&](KSP k, Mat A, Mat P) { problem::createLevelMatrices<Ctx, D>(k, A, P, c); });
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    sx_reach("levels");
}

// C32: what the linear solver is given
template<int D> void field_split(domain<D> const &o, KSP ksp, DM dm, int st, int mask)
{
    DM dv, dp, d0;
    DMCompositeGetEntries(dm, &dv, &dp);
    PC pc, mg;
    KSP *sub;
    int n = 0, nl = 0;
    KSPGetPC(ksp, &pc);
    PCFieldSplitGetSubKSP(pc, &n, &sub);
    sx_assert_eqi(n, 2, "multigrid-fields", 0);
    KSPGetDM(sub[0], &d0);
    sx_assert(d0 == dv, "multigrid-fields", 1);
    KSPGetPC(sub[0], &mg);
    PCMGGetLevels(mg, &nl);
    int c = o.gv.n[0];
    for (int d = 1; d < D; ++d) if (o.gv.n[d] < c) c = o.gv.n[d];
    int fine = c;
    sx_assert(nl >= 1, "multigrid-levels", 0);
    fx::observe("levels", 0, nl);
    for (int l = 1; l < nl; ++l) c = (c + 1) / 2;
    // halved until the smallest direction is small, and no further
    sx_assert(c <= 9, "multigrid-levels", 1);
    sx_assert(nl == 1 || c >= 4, "multigrid-levels", 2);
    sx_assert(nl == 1 || fine > 8, "multigrid-levels", 3);
    PetscErrorCode (*f)(KSP, Mat, Mat, void *) = nullptr;
    void *ctx = nullptr;
    DMKSPGetComputeOperators(dv, &f, &ctx);
    sx_assert(f != nullptr, "multigrid-operators", 0);
    if (f) each_level<D>(o, dv, sx_cfg("levels", 1), st, mask, [&](KSP k, Mat A, Mat P) { f(k, A, P, ctx); });
}
static void solver()
{
    domain<2> o;
    o.options();
    int mask = fx::cfg("mask", "mask1", 255), st = fx::cfg("strain", "strain1", 0), as = sx_cfg("assembled", 0), pmm = sx_cfg("pmm", 0), kind = sx_cfg("kind", 0);
    hx_opt_bool("-assembling", as);
    hx_opt_bool("-strain_tensor", st);
    hx_opt_bool("-PMM", pmm);
    if (kind) hx_opt_str("-stokes_ksp_type", "preonly");
    if (kind == 1) hx_opt_str("-stokes_pc_type", "none");
    if (kind == 2) hx_opt_str("-stokes_pc_type", "lu");
    auto s = make_stokes<2>(make_bcs(std::integral_constant<int, 2>{}, mask), forces(std::integral_constant<int, 2>{}, 3));
    if (kind != 1) s.setup_RHS();
    s.setup_KSP();
    Mat A, P;
    KSPGetOperators(s.ksp, &A, &P);
    sx_assert(A == s.A, "solver-matrix", 0);
    // a factorisation is of the matrix itself, anything else is preconditioned
    sx_assert(P == (kind == 2 ? s.A : s.P), "solver-matrix", 1);
    if (pmm) field_split<2>(o, s.ksp, s.ctx->dm, st, mask);
    if (kind == 1)
    {
        // the solver is told to return the right-hand side
        fill<2>(s.ctx->dm, s.rhs, 0, "b", 2);
        fill<2>(s.ctx->dm, s.rhs, 1, "bp", 1);
        fill<2>(s.ctx->dm, s.sol, 0, "x", 2);
        fill<2>(s.ctx->dm, s.sol, 1, "xp", 1);
        s.solve();
        Vec v[2] = {s.sol, s.rhs};
        for (int k = 0; k < 2; ++k)
        {
            each_owned<2>(s.ctx->dm, v[k], 0, [&](const ivec<2> &q, double *u) { for (int d = 0; d < 2; ++d) sx_assert_eq(u[d], sym("b", o.gv.lin(q), d), k ? "right-hand-side-kept" : "solution", 2 * o.gv.lin(q) + d); });
            each_owned<2>(s.ctx->dm, v[k], 1, [&](const ivec<2> &q, double *u) { sx_assert_eq(u[0], sym("bp", o.gp.lin(q), 0), k ? "right-hand-side-kept" : "solution", 100000 + o.gp.lin(q)); });
        }
    }
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    sx_reach("solver");
}

// C28: the null space attached to the assembled matrix
static void nullspace()
{
    domain<2> o;
    o.options();
    hx_opt_bool("-assembling", 1);
    hx_opt_bool("-strain_tensor", fx::cfg("strain", "strain1", 0));
    auto s = make_stokes<2>(make_bcs(std::integral_constant<int, 2>{}, 255), make_rhs<2>({{nullptr, nullptr}}));
    MatNullSpace ns = nullptr;
    MatGetNullSpace(s.A, &ns);
    sx_assert(ns != nullptr, "null-space-attached", 0);
    PetscBool hc; PetscInt n; const Vec *vs;
    MatNullSpaceGetVecs(ns, &hc, &n, &vs);
    sx_assert(!hc && n == 1, "null-space-attached", 1);
    each_owned<2>(s.ctx->dm, vs[0], 0, [&](const ivec<2> &q, double *v) { for (int d = 0; d < 2; ++d) sx_assert_eq(v[d], 0., "null-space-velocity", 2 * o.gv.lin(q) + d); });
    double np = o.gp.size();
    each_owned<2>(s.ctx->dm, vs[0], 1, [&](const ivec<2> &q, double *v) { fx::observe("ns", o.gp.lin(q), v[0] * v[0]); sx_assert(v[0] > 0, "null-space-pressure", o.gp.lin(q)); sx_assert_eq(v[0] * v[0] * np, 1., "null-space-pressure", o.gp.lin(q)); });
    Vec y;
    DMCreateGlobalVector(s.ctx->dm, &y);
    Vec x;
    VecDuplicate(y, &x);
    VecCopy(vs[0], x);
    MatMult(s.A, x, y);
    each_owned<2>(s.ctx->dm, y, 0, [&](const ivec<2> &q, double *v) { for (int d = 0; d < 2; ++d) sx_assert_eq(v[d], 0., "null-space-kernel", 2 * o.gv.lin(q) + d); });
    each_owned<2>(s.ctx->dm, y, 1, [&](const ivec<2> &q, double *v) { sx_assert_eq(v[0], 0., "null-space-kernel", 100000 + o.gp.lin(q)); });
    sx_reach("nullspace");
}
// the same in space, where the problem class does not compile
static void solver3()
{
    domain<3> o;
    int mask = fx::cfg("mask", "mask1", (1 << 18) - 1), st = fx::cfg("strain", "strain1", 0);
    using Ctx = problem::context<3>;
    DM mesh, dv, dp;
    fem::createMesh<3>(mesh, o.m, o.pb());
    DMCompositeGetEntries(mesh, &dv, &dp);
    PetscErrorCode (*method)(petsc::petsc_vec<3> &, petsc::petsc_vec<3> &, std::array<double, 3> const &);
    if (st) method = fem::strain_tensor_mult; else method = fem::laplacian_mult;
    auto bc = make_bcs(std::integral_constant<int, 3>{}, mask);
    Vec sol;
    DMCreateGlobalVector(mesh, &sol);
    Ctx *c = new Ctx{mesh, o.hu, method}, *cv = new Ctx{dv, o.hu, method, fem::diag_laplacian_mult}, *cp = new Ctx{dp, o.hu, fem::mass_mult, fem::diag_mass_mult};
    c->set_dirichlet_bc(bc);
    cv->set_dirichlet_bc(bc);
    DMSetMatType(dv, MATSHELL);
    DMSetMatType(dp, MATSHELL);
    Mat A = fem::make_matrix<Ctx>(c, fem::stokes_matrix<Ctx>), P, b[2][2];
    MatSetDM(A, mesh);
    b[0][0] = fem::make_matrix<Ctx>(cv);
    b[0][1] = b[1][0] = nullptr;
    b[1][1] = fem::make_matrix<Ctx>(cp);
    MatCreateNest(PETSC_COMM_WORLD, 2, nullptr, 2, nullptr, &b[0][0], &P);
    MatSetDM(P, mesh);
    KSP ksp;
    KSPCreate(PETSC_COMM_WORLD, &ksp);
    KSPSetDM(ksp, mesh);
    KSPSetDMActive(ksp, PETSC_FALSE);
    KSPSetOperators(ksp, A, P);
    problem::setPMMSolver<Ctx, 3>(ksp, mesh, c);
    field_split<3>(o, ksp, mesh, st, mask);
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    sx_reach("solver");
}
static void one()
{
    int part = sx_cfg("part", 0), dim = sx_cfg("dim", 2);
    if (part == 0) dim == 2 ? mesh<2>() : mesh<3>();
    if (part == 1) dim == 2 ? vectors<2>() : vectors<3>();
    if (part == 2) rhs2();
    if (part == 3) dim == 2 ? rhs_pieces<2>() : rhs_pieces<3>();
    if (part == 4) dim == 2 ? opts<2>() : opts<3>();
    if (part == 5) dim == 2 ? levels<2>() : levels<3>();
    if (part == 6) nullspace();
    if (part == 7) dim == 2 ? solver() : solver3();
}
extern "C" void sx_main() { sx_run_ranks(sx_cfg("np", 1), [] { fx::after_another(one); }); }
