// C03/C04/C05/C06: the discrete Stokes operators, matrix-free and assembled,
// on a whole (small) grid for every field, mesh step and boundary condition,
// against an independent definition.
#include <fem.h>
using namespace fx;

// full saddle point operator at every owned point
template<int D> void check_stokes(const domain<D> &o, DM dm, Mat A, int op, int mask, const char *tag_v, const char *tag_c, const char *tag_p)
{
    Vec x, y;
    DMCreateGlobalVector(dm, &x);
    VecDuplicate(x, &y);
    fill<D>(dm, x, 0, "u", D);
    fill<D>(dm, x, 1, "p", 1);
    MatMult(A, x, y);
    each_owned<D>(dm, y, 0, [&](const ivec<D> &q, double *v) {
        for (int d = 0; d < D; ++d)
        {
            int l = o.gv.lin(q);
            fx::observe(tag_v, D * l + d, v[d]);
            if (constrained<D>(o.gv, q, d, mask)) sx_assert_eq(v[d], sym("u", l, d), tag_c, D * l + d);
            else
                sx_assert_eq(v[d], block<D>(op, o.gv, q, d, D, o.hu, "u") - pressure_gradient<D>(o.gv, o.gp, q, d, o.hu, "p"), tag_v, D * l + d);
        }
    });
    each_owned<D>(dm, y, 1, [&](const ivec<D> &q, double *v) {
        fx::observe(tag_p, o.gp.lin(q), v[0]);
        sx_assert_eq(v[0], divergence<D>(o.gv, o.gp, q, o.hu, "u"), tag_p, o.gp.lin(q));
    });
}
// one diagonal block on its own grid
template<int D> void check_block(const grid<D> &g, DM dm, Mat A, int op, int dof, int mask, const std::array<double, D> &h, const char *tag, const char *tag_c)
{
    Vec x, y;
    DMCreateGlobalVector(dm, &x);
    VecDuplicate(x, &y);
    fill<D>(dm, x, "x", dof);
    MatMult(A, x, y);
    each_owned<D>(dm, y, [&](const ivec<D> &q, double *v) {
        for (int d = 0; d < dof; ++d)
        {
            int l = g.lin(q);
            fx::observe(tag, dof * l + d, v[d]);
            if (mask && constrained<D>(g, q, d, mask)) sx_assert_eq(v[d], sym("x", l, d), tag_c, dof * l + d);
            else sx_assert_eq(v[d], block<D>(op, g, q, d, dof, h, "x"), tag, dof * l + d);
        }
    });
}
template<int D> void check_diag(const grid<D> &g, DM dm, Mat A, int op, int dof, const std::array<double, D> &h, const char *tag)
{
    Vec y;
    DMCreateGlobalVector(dm, &y);
    MatGetDiagonal(A, y);
    each_owned<D>(dm, y, [&](const ivec<D> &q, double *v) {
        for (int d = 0; d < dof; ++d)
        {
            fx::observe(tag, dof * g.lin(q) + d, v[d]);
            sx_assert_eq(v[d], block_diag<D>(op, g, q, h), tag, dof * g.lin(q) + d);
        }
    });
}
template<int D> int mask_all() { return (1 << (2 * D * D)) - 1; }

// the problem class (two dimensions)
static void problem2()
{
    domain<2> o;
    o.options();
    int assembled = sx_cfg("assembled", 0), st = fx::cfg("strain", "strain1", 0), mask = fx::cfg("mask", "mask1", mask_all<2>());
    hx_opt_bool("-assembling", assembled);
    hx_opt_bool("-strain_tensor", st);
    auto bc = make_bcs(std::integral_constant<int, 2>{}, mask);
    auto rhs = make_rhs<2>({{nullptr, nullptr}});
    auto s = make_stokes<2>(bc, rhs);
    DM dv, dp;
    DMCompositeGetEntries(s.ctx->dm, &dv, &dp);
    if (assembled)
    {
        sx_assert_eqi(hx_petsc_errors(), 0, "assembled-preallocation", 0);
        check_stokes<2>(o, s.ctx->dm, s.A, st, mask, "assembled-momentum", "assembled-dirichlet-row", "assembled-mass-conservation");
        // the preconditioner matrix: the same velocity block and the pressure mass matrix
        Vec x, y;
        DMCreateGlobalVector(s.ctx->dm, &x);
        VecDuplicate(x, &y);
        fill<2>(s.ctx->dm, x, 0, "u", 2);
        fill<2>(s.ctx->dm, x, 1, "p", 1);
        MatMult(s.P, x, y);
        each_owned<2>(s.ctx->dm, y, 0, [&](const ivec<2> &q, double *v) {
            for (int d = 0; d < 2; ++d)
            {
                int l = o.gv.lin(q);
                if (constrained<2>(o.gv, q, d, mask)) sx_assert_eq(v[d], sym("u", l, d), "preconditioner-dirichlet-row", 2 * l + d);
                else sx_assert_eq(v[d], block<2>(st, o.gv, q, d, 2, o.hu, "u"), "preconditioner-velocity", 2 * l + d);
            }
        });
        each_owned<2>(s.ctx->dm, y, 1, [&](const ivec<2> &q, double *v) {
            sx_assert_eq(v[0], block<2>(MASS, o.gp, q, 0, 1, o.hp, "p"), "preconditioner-pressure-mass", o.gp.lin(q));
        });
        sx_reach("assembled");
    }
    else
    {
        check_stokes<2>(o, s.ctx->dm, s.A, st, mask, "momentum", "dirichlet-row", "mass-conservation");
        Mat A11, A22;
        MatNestGetSubMat(s.P, 0, 0, &A11);
        MatNestGetSubMat(s.P, 1, 1, &A22);
        check_block<2>(o.gv, dv, A11, st, 2, mask, o.hu, "velocity-block", "velocity-block-dirichlet");
        check_block<2>(o.gp, dp, A22, MASS, 1, 0, o.hp, "pressure-mass", "");
        if (sx_cfg("diag", 1)) check_diag<2>(o.gv, dv, A11, LAPLACIAN, 2, o.hu, "velocity-diagonal");
        if (sx_cfg("diag", 1)) check_diag<2>(o.gp, dp, A22, MASS, 1, o.hp, "pressure-mass-diagonal");
        sx_reach("matrix-free");
    }
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
}
// the pieces (two and three dimensions)
template<int D> void pieces()
{
    domain<D> o;
    int st = fx::cfg("strain", "strain1", 0), mask = fx::cfg("mask", "mask1", mask_all<D>());
    using Ctx = problem::context<D>;
    DM mesh, dv, dp;
    fem::createMesh<D>(mesh, o.m, o.pb());
    PetscErrorCode (*method)(petsc::petsc_vec<D> &, petsc::petsc_vec<D> &, std::array<double, D> const &);
    if (st) method = fem::strain_tensor_mult;
    else method = fem::laplacian_mult;
    DMCompositeGetEntries(mesh, &dv, &dp);
    Ctx *c = new Ctx{mesh, o.hu, method};
    if (mask) c->set_dirichlet_bc(make_bcs(std::integral_constant<int, D>{}, mask));
    Mat A = fem::make_matrix<Ctx>(c, fem::stokes_matrix<Ctx>);
    check_stokes<D>(o, mesh, A, st, mask, "pieces-momentum", "pieces-dirichlet-row", "pieces-mass-conservation");
    if (sx_cfg("blocks", 1))
    {
        Ctx *b = new Ctx{dv, o.hu, method, fem::diag_laplacian_mult};
        if (mask) b->set_dirichlet_bc(make_bcs(std::integral_constant<int, D>{}, mask));
        Mat B = fem::make_matrix<Ctx>(b);
        check_block<D>(o.gv, dv, B, st, D, mask, o.hu, "pieces-velocity-block", "pieces-velocity-block-dirichlet");
        check_diag<D>(o.gv, dv, B, LAPLACIAN, D, o.hu, "pieces-velocity-diagonal");
        Ctx *m = new Ctx{dp, o.hp, fem::mass_mult, fem::diag_mass_mult};
        Mat M = fem::make_matrix<Ctx>(m);
        check_block<D>(o.gp, dp, M, MASS, 1, 0, o.hp, "pieces-pressure-mass", "");
        check_diag<D>(o.gp, dp, M, MASS, 1, o.hp, "pieces-pressure-mass-diagonal");
        Vec x, y;
        DMCreateGlobalVector(mesh, &x);
        VecDuplicate(x, &y);
        fill<D>(mesh, x, 0, "u", D);
        fill<D>(mesh, x, 1, "p", 1);
        fem::apply_mass_matrix<D>(mesh, x, y, o.hu);
        each_owned<D>(mesh, y, 0, [&](const ivec<D> &q, double *v) {
            for (int d = 0; d < D; ++d) sx_assert_eq(v[d], block<D>(MASS, o.gv, q, d, D, o.hu, "u"), "mass-operator-velocity", D * o.gv.lin(q) + d);
        });
        each_owned<D>(mesh, y, 1, [&](const ivec<D> &q, double *v) {
            sx_assert_eq(v[0], block<D>(MASS, o.gp, q, 0, 1, o.hp, "p"), "mass-operator-pressure", o.gp.lin(q));
        });
    }
    sx_reach("pieces");
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
}
// the assembly functions by themselves (two dimensions: there is no assembly in three)
template<int D> void assembled_pieces()
{
    domain<D> o;
    int st = fx::cfg("strain", "strain1", 0), mask = fx::cfg("mask", "mask1", mask_all<D>());
    using Ctx = problem::context<D>;
    DM mesh, dv, dp;
    fem::createMesh<D>(mesh, o.m, o.pb());
    DMCompositeGetEntries(mesh, &dv, &dp);
    PetscErrorCode (*method)(petsc::petsc_vec<D> &, petsc::petsc_vec<D> &, std::array<double, D> const &);
    method = fem::laplacian_mult;
    Ctx *c = new Ctx{mesh, o.hu, method};
    auto bc = make_bcs(std::integral_constant<int, D>{}, mask);
    c->set_dirichlet_bc(bc);
    problem::options<D> opt{};
    for (int d = 0; d < D; ++d) { opt.mx[d] = o.m[d]; opt.lx[d] = o.L[d]; opt.xperiod[d] = o.pb()[d]; }
    opt.strain_tensor = st ? PETSC_TRUE : PETSC_FALSE;
    opt.assembling = PETSC_TRUE;
    Mat A, P;
    PreallocateMat(c, opt, MATAIJ, &A, false);
    PreallocateMat(c, opt, MATAIJ, &P, true);
    if (st) { strain_tensor_assembling(dv, A, o.hu); strain_tensor_assembling(dv, P, o.hu); }
    else
    {
        sx_assert_eqi(laplacian_assembling(dv, A, o.hu), 0, "assembled-return-code", 0);
        sx_assert_eqi(laplacian_assembling(dv, P, o.hu), 0, "assembled-return-code", 1);
    }
    sx_assert_eqi(B_BT_assembling(mesh, A, o.hu), 0, "assembled-return-code", 2);
    diagonal_assembling<D>(mesh, A, 0.);
    sx_assert_eqi(mass_assembling(mesh, P, o.hp), 0, "assembled-return-code", 3);
    MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY);
    MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY);
    MatAssemblyBegin(P, MAT_FINAL_ASSEMBLY);
    MatAssemblyEnd(P, MAT_FINAL_ASSEMBLY);
    fem::SetDirichletOnMat(A, bc);
    fem::SetDirichletOnMat(P, bc);
    sx_assert_eqi(hx_petsc_errors(), 0, "assembled-preallocation", 0);
    check_stokes<D>(o, mesh, A, st, mask, "assembled-momentum", "assembled-dirichlet-row", "assembled-mass-conservation");
    Vec x, y;
    DMCreateGlobalVector(mesh, &x);
    VecDuplicate(x, &y);
    fill<D>(mesh, x, 0, "u", D);
    fill<D>(mesh, x, 1, "p", 1);
    MatMult(P, x, y);
    each_owned<D>(mesh, y, 0, [&](const ivec<D> &q, double *v) {
        for (int d = 0; d < D; ++d)
        {
            int l = o.gv.lin(q);
            if (constrained<D>(o.gv, q, d, mask)) sx_assert_eq(v[d], sym("u", l, d), "preconditioner-dirichlet-row", D * l + d);
            else sx_assert_eq(v[d], block<D>(st, o.gv, q, d, D, o.hu, "u"), "preconditioner-velocity", D * l + d);
        }
    });
    each_owned<D>(mesh, y, 1, [&](const ivec<D> &q, double *v) { sx_assert_eq(v[0], block<D>(MASS, o.gp, q, 0, 1, o.hp, "p"), "preconditioner-pressure-mass", o.gp.lin(q)); });
    sx_reach("assembled");
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
}
static void one()
{
    int dim = sx_cfg("dim", 2), pieces_ = sx_cfg("pieces", 0);
    if (sx_cfg("assembled", 0) && pieces_) { assembled_pieces<2>(); }
    else if (dim == 2 && !pieces_) problem2();
    else if (dim == 2) pieces<2>();
    else pieces<3>();
}
extern "C" void sx_main() { sx_run_ranks(sx_cfg("np", 1), [] { fx::after_another(one); }); }
