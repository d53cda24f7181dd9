// C13/C14/C15/C17/C18/C27: particles in the fluid: materials, interpolation to
// the surface, layers, projection, control problems.
#include <fem.h>
using namespace fx;
using geometry::position;
typedef std::vector<double> field; // D values per grid point, all processes hold all of it

static double sq(double x) { return x * x; }
template<int D> struct spinvec;
template<> struct spinvec<2> { typedef double type; static double get(double w, int) { return w; } };
template<> struct spinvec<3> { typedef geometry::vector<double, 3> type; static double get(type const &w, int d) { return w[d]; } };
template<int D> constexpr int nspin() { return D == 2 ? 1 : 3; }
static void set(double &w, int, double v) { w = v; }
static void set(geometry::vector<double, 3> &w, int d, double v) { w[d] = v; }
// cross product as numbers: w x r, r x g
template<int D> std::array<double, D> spin_at(const double *w, const std::array<double, D> &r);
template<> std::array<double, 2> spin_at<2>(const double *w, const std::array<double, 2> &r) { return {{-w[0] * r[1], w[0] * r[0]}}; }
template<> std::array<double, 3> spin_at<3>(const double *w, const std::array<double, 3> &r) { return {{w[1] * r[2] - w[2] * r[1], w[2] * r[0] - w[0] * r[2], w[0] * r[1] - w[1] * r[0]}}; }
static void moment(double *w, const std::array<double, 2> &r, const std::array<double, 2> &g) { w[0] += r[0] * g[1] - r[1] * g[0]; }
static void moment(double *w, const std::array<double, 3> &r, const std::array<double, 3> &g)
{
    for (int d = 0; d < 3; ++d) { int a = (d + 1) % 3, b = (d + 2) % 3; w[d] += r[a] * g[b] - r[b] * g[a]; }
}

// An ellipsoid in units of the mesh for the membership, with everything else
// (centre, measures, surface points within their cells) any value.
template<int D> struct spt { ivec<D> cell; std::array<double, D> t; }; // position (cell + t) h
template<int D> struct blob
{
    typedef std::integral_constant<std::size_t, D> dimension_type;
    position<double, D> center_;
    std::array<double, D> shape_factors_;
    std::array<double, D> h, c, a;
    ivec<D> lo, hi;
    int id;
    std::vector<spt<D>> pts;
    bool inside(std::array<double, D> const &x) const
    {
        double q = 0;
        for (int d = 0; d < D; ++d) q += sq((x[d] - c[d]) / a[d]);
        return q < 1.;
    }
    bool contains(position<double, D> const &p) const
    {
        std::array<double, D> x;
        for (int d = 0; d < D; ++d) x[d] = p[d] / h[d];
        return inside(x);
    }
    geometry::box<int, D> bounding_box(std::array<double, D> const &) const
    {
        geometry::box<int, D> b;
        for (int d = 0; d < D; ++d) { b.bottom_left[d] = lo[d]; b.upper_right[d] = hi[d]; }
        return b;
    }
    template<class T> std::vector<position<double, D>> surface(T const &) const
    {
        std::vector<position<double, D>> v;
        for (auto &s : pts) { position<double, D> p; for (int d = 0; d < D; ++d) p[d] = (s.cell[d] + s.t[d]) * h[d]; v.push_back(p); }
        return v;
    }
    double surface_area() const { return sx_real_pos("area", id, 0, 0); }
    double volume() const { return sx_real_pos("volume", id, 0, 0); }
    double Cd_R() const { return sx_real_pos("cd", id, 0, 0); }
    double Ci_R() const { return sx_real_pos("ci", id, 0, 0); }
};
// the fluid problem; its solution is its right-hand side
template<int D, int C> void force_fn(const PetscReal *x, PetscScalar *u)
{
    double r = sx_real("force", C, 0, 0);
    for (int d = 0; d < D; ++d) r += sx_real("force", C, d + 1, 0) * x[d];
    *u = r;
}
template<int D> double force_val(int c, std::array<double, D> const &x)
{
    double r = sx_real("force", c, 0, 0);
    for (int d = 0; d < D; ++d) r += sx_real("force", c, d + 1, 0) * x[d];
    return r;
}
template<int D> fem::rhs_conditions<D> make_forces();
template<> fem::rhs_conditions<2> make_forces<2>() { return make_rhs<2>({{force_fn<2, 0>, force_fn<2, 1>}}); }
template<> fem::rhs_conditions<3> make_forces<3>() { return make_rhs<3>({{force_fn<3, 0>, force_fn<3, 1>, force_fn<3, 2>}}); }
static int g_solves = 0;
struct fluid2 : problem::stokes<2>
{
    using problem::stokes<2>::stokes;
    PetscErrorCode setup_KSP() override { return (PetscErrorCode)0; }
    PetscErrorCode solve() override { ++g_solves; return VecCopy(rhs, sol); }
};
struct fluid3
{
    problem::context<3> *ctx;
    Vec sol, rhs;
    fem::rhs_conditions<3> rhsc_;
    fluid3(fem::dirichlet_conditions<3> bc, fem::rhs_conditions<3> r, domain<3> const &o) : rhsc_(r)
    {
        DM mesh;
        fem::createMesh<3>(mesh, o.m, o.pb());
        DMCreateGlobalVector(mesh, &sol);
        VecDuplicate(sol, &rhs);
        VecSet(rhs, 0.);
        PetscErrorCode (*method)(petsc::petsc_vec<3> &, petsc::petsc_vec<3> &, std::array<double, 3> const &) = fem::laplacian_mult;
        ctx = new problem::context<3>{mesh, o.hu, method};
        ctx->set_dirichlet_bc(bc);
    }
    PetscErrorCode setup_KSP() { return (PetscErrorCode)0; }
    PetscErrorCode solve() { ++g_solves; return VecCopy(rhs, sol); }
    PetscErrorCode setup_RHS()
    {
        fem::set_rhs<3, 1>(ctx->dm, rhs, rhsc_, ctx->h);
        auto r = petsc::petsc_vec<3>(ctx->dm, rhs, 0);
        return SetDirichletOnRHS(r, ctx->bc_, ctx->h);
    }
};
template<int D> struct fluid;
template<> struct fluid<2>
{
    typedef fluid2 type;
    static type make(domain<2> const &o, int mask) { o.options(); return type(make_bcs(std::integral_constant<int, 2>{}, mask), make_forces<2>()); }
};
template<> struct fluid<3>
{
    typedef fluid3 type;
    static type make(domain<3> const &o, int mask) { return type(make_bcs(std::integral_constant<int, 3>{}, mask), make_forces<3>(), o); }
};
template<int D> int mask_all() { return (1 << (2 * D * D)) - 1; }

template<int D> struct world
{
    typedef blob<D> shape;
    typedef typename fluid<D>::type problem_type;
    typedef typename std::conditional<D == 2, double, std::array<double, 2>>::type dpart_type;
    domain<D> o;
    grid<D> g;
    int mask, scale = sx_cfg("scale", 4); // samples of a cell in each direction
    std::vector<particle<shape>> parts;
    world()
    {
        mask = fx::cfg("mask", "mask1", mask_all<D>());
        g = o.gv;
        int move = sx_cfg("move", 0), which = sx_cfg("parts", 0), ts = sx_cfg("tsym", 1);
        // centre (in fractions of the grid), half axes (in steps)
        struct spec { double c[3], a[3]; };
        static const spec list[][2] = {{{{.497, .513, .505}, {1.73, 1.61, 1.55}}, {{0, 0, 0}, {0, 0, 0}}},
                                       {{{.251, .262, .493}, {1.28, 1.07, 1.17}}, {{.77, .71, .483}, {1.11, 1.57, 1.21}}},
                                       {{{.052, .493, .511}, {1.21, 1.33, 1.27}}, {{.83, .97, .92}, {1.31, 1.13, 1.19}}}};
        for (int i = 0; i < (which ? 2 : 1); ++i)
        {
            shape s;
            auto &l = list[which][i];
            s.id = i;
            s.h = o.hu;
            for (int d = 0; d < D; ++d)
            {
                s.c[d] = l.c[d] * (g.n[d] - 1) + (fx::round_of() ? .37 : 0.);
                s.a[d] = l.a[d];
                s.lo[d] = (int)(s.c[d] - s.a[d] + 100) - 100 - 1;
                s.hi[d] = (int)(s.c[d] + s.a[d] + 100) - 100 + 2;
                if (d < move) // anywhere within half a step
                {
                    double x = sx_real("shift", i, d, 0);
                    double w = sx_cfg("half", 0) ? .5 : .25;
                    sx_assume(x >= -w); sx_assume(x <= w);
                    s.c[d] += x;
                    --s.lo[d]; ++s.hi[d];
                }
                s.center_[d] = sx_real("center", i, d, fx::round_of());
                s.shape_factors_[d] = sx_real_pos("factor", i, d, fx::round_of());
            }
            // surface points near the axes ends
            for (int f = 0; f < 2 * D; ++f)
            {
                if (f >= sx_cfg("npts", D == 2 ? 4 : 6) - i) break; // one point fewer on the second particle
                spt<D> p;
                for (int d = 0; d < D; ++d)
                {
                    double x = s.c[d] + (d == f / 2 ? (f % 2 ? s.a[d] : -s.a[d]) : .17 * (f - 2));
                    p.cell[d] = (int)(x + 100) - 100;
                    p.t[d] = ts ? sx_real("t", 10 * i + f, d, 0) : x - p.cell[d];
                    if (ts) { sx_assume(p.t[d] >= 0.); sx_assume(p.t[d] < 1.); }
                }
                s.pts.push_back(p);
            }
            physics::force<D> fo;
            for (int d = 0; d < D; ++d) fo[d] = sx_real("pf", i, d, 0);
            particle<shape> p(s, fo, sx_real("rho", i, 0, 0));
            for (int d = 0; d < D; ++d) p.velocity_[d] = sx_real("pv", i, d, 0);
            set_spin(p.angular_velocity_, i);
            parts.push_back(p);
        }
    }
    static void set_spin(double &w, int i) { w = sx_real("pw", i, 0, 0); }
    static void set_spin(geometry::vector<double, 3> &w, int i) { for (int d = 0; d < 3; ++d) w[d] = sx_real("pw", i, d, 0); }
    shape const &sh(int i) const { return (shape const &)parts[i]; }
    static dpart_type dpart() { return dpart_type{}; }

    // the cell of lowest corner e is one of the domain's
    bool cell(const ivec<D> &e) const { for (int d = 0; d < D; ++d) if (e[d] < 0 || e[d] >= g.n[d] - (g.per[d] ? 0 : 1)) return false; return true; }
    // fluid points of particle i: mesh points of the domain's cells' lower corners that it contains
    template<class F> void each_point(int i, F f) const
    {
        auto &s = sh(i);
        int tot = 1;
        for (int d = 0; d < D; ++d) tot *= s.hi[d] - s.lo[d];
        for (int l = 0; l < tot; ++l)
        {
            ivec<D> p;
            int t = l;
            for (int d = 0; d < D; ++d) { int w = s.hi[d] - s.lo[d]; p[d] = s.lo[d] + t % w; t /= w; }
            if (cell(p)) f(p);
        }
    }
    template<class F> void each_inside(int i, F f) const
    {
        each_point(i, [&](const ivec<D> &p) {
            std::array<double, D> x;
            for (int d = 0; d < D; ++d) x[d] = p[d];
            if (sh(i).inside(x)) f(p);
        });
    }
    // sample points of the projection: f(cell, offset in the cell)
    template<class F> void each_sample(int i, F f) const
    {
        each_point(i, [&](const ivec<D> &p) {
            int tot = 1;
            for (int d = 0; d < D; ++d) tot *= scale;
            for (int l = 0; l < tot; ++l)
            {
                std::array<double, D> x, t;
                int r = l;
                for (int d = 0; d < D; ++d) { t[d] = (r % scale) / (double)scale; r /= scale; x[d] = p[d] + t[d]; }
                if (sh(i).inside(x)) f(p, t);
            }
        });
    }
    template<class F> void each_surface(int i, F f) const { for (auto &s : sh(i).pts) if (cell(s.cell)) f(s); }
    int nsurf(int i) const { int n = 0; each_surface(i, [&](spt<D> const &) { ++n; }); return n; }
    int nsample(int i) const { int n = 0; each_sample(i, [&](const ivec<D> &, std::array<double, D> const &) { ++n; }); return n; }
    int ninside(int i) const { int n = 0; each_inside(i, [&](const ivec<D> &) { ++n; }); return n; }
    std::array<double, D> radius(int i, spt<D> const &s) const
    {
        std::array<double, D> r;
        for (int d = 0; d < D; ++d) r[d] = (s.cell[d] + s.t[d]) * o.hu[d] - sh(i).center_[d];
        return r;
    }
    static double hat(int a, std::array<double, D> const &t) { double w = 1; for (int d = 0; d < D; ++d) w *= bit<D>(a, d) ? t[d] : 1. - t[d]; return w; }
    int at(const ivec<D> &p) const { ivec<D> q = p; g.norm(q); return g.lin(q); }

    // ---------------------------------------------------------------- reference stages
    field named(const char *name) const { field f(g.size() * D); for (int l = 0; l < g.size(); ++l) for (int d = 0; d < D; ++d) f[l * D + d] = sym(name, l, d); return f; }
    field mass(field const &f) const
    {
        field r(f.size(), 0.);
        for (int l = 0; l < g.size(); ++l)
        {
            auto p = g.pos(l);
            for (int d = 0; d < D; ++d) r[l * D + d] = around<D>(g, p, [&](int a, int b, const ivec<D> &q) { return fx::mass<D>(a, b, o.hu) * f[g.lin(q) * D + d]; });
        }
        return r;
    }
    void conditions(field &f, bool null) const
    {
        for (int l = 0; l < g.size(); ++l)
        {
            auto p = g.pos(l);
            for (int c = 0; c < D; ++c)
                for (int k = 0; k < 2 * D; ++k)
                    if (((mask >> (D * k + c)) & 1) && g.face(p, k))
                    {
                        std::array<double, D> x;
                        for (int d = 0; d < D; ++d) x[d] = p[d] * o.hu[d];
                        f[l * D + c] = null ? 0. : bc_val<D>(k, c, x);
                    }
        }
    }
    // right-hand side for a control field on the particles
    field right_hand_side(field const &control, bool full, bool forces) const
    {
        field f(g.size() * D, 0.);
        for (int i = 0; i < (int)parts.size(); ++i)
            each_inside(i, [&](const ivec<D> &p) { for (int d = 0; d < D; ++d) f[at(p) * D + d] = control[at(p) * D + d] + (forces ? parts[i].rho_ * parts[i].force_[d] : 0.); });
        if (full)
            for (int l = 0; l < g.size(); ++l)
            {
                auto p = g.pos(l);
                std::array<double, D> x;
                for (int d = 0; d < D; ++d) x[d] = p[d] * o.hu[d];
                for (int d = 0; d < D; ++d) f[l * D + d] += force_val<D>(d, x);
            }
        auto r = mass(f);
        conditions(r, !full);
        return r;
    }
    typedef std::vector<std::vector<std::array<double, D>>> layer;
    layer interpolate(field const &u, bool rigid) const
    {
        layer g_(parts.size());
        for (int i = 0; i < (int)parts.size(); ++i)
            each_surface(i, [&](spt<D> const &s) {
                std::array<double, D> v;
                double w[3];
                for (int k = 0; k < nspin<D>(); ++k) w[k] = spinvec<D>::get(parts[i].angular_velocity_, k);
                auto m = spin_at<D>(w, radius(i, s));
                for (int d = 0; d < D; ++d)
                {
                    v[d] = 0;
                    for (int a = 0; a < nq1<D>(); ++a) v[d] += hat(a, s.t) * u[at(add<D>(s.cell, corner<D>(a))) * D + d];
                    if (rigid) v[d] -= parts[i].velocity_[d] + m[d];
                }
                g_[i].push_back(v);
            });
        return g_;
    }
    struct rigid { std::array<double, D> mean; double w[3]; };
    std::vector<rigid> layer_motion(layer const &l) const
    {
        std::vector<rigid> r(parts.size());
        for (int i = 0; i < (int)parts.size(); ++i)
        {
            for (int d = 0; d < D; ++d) r[i].mean[d] = 0;
            for (double &x : r[i].w) x = 0;
            int k = 0;
            each_surface(i, [&](spt<D> const &s) { for (int d = 0; d < D; ++d) r[i].mean[d] += l[i][k][d]; moment(r[i].w, radius(i, s), l[i][k]); ++k; });
            for (int d = 0; d < D; ++d) r[i].mean[d] /= k;
            for (int d = 0; d < nspin<D>(); ++d) r[i].w[d] *= sh(i).Cd_R() / k;
        }
        return r;
    }
    layer remove_motion(layer l, std::vector<rigid> const &r) const
    {
        for (int i = 0; i < (int)parts.size(); ++i)
        {
            int k = 0;
            each_surface(i, [&](spt<D> const &s) { auto m = spin_at<D>(r[i].w, radius(i, s)); for (int d = 0; d < D; ++d) l[i][k][d] -= r[i].mean[d] + m[d]; ++k; });
        }
        return l;
    }
    field spread(layer const &l) const
    {
        field f(g.size() * D, 0.);
        for (int i = 0; i < (int)parts.size(); ++i)
        {
            int k = 0, n = nsurf(i);
            each_surface(i, [&](spt<D> const &s) {
                for (int a = 0; a < nq1<D>(); ++a)
                    for (int d = 0; d < D; ++d) f[at(add<D>(s.cell, corner<D>(a))) * D + d] += l[i][k][d] * hat(a, s.t) * sh(i).surface_area() / n;
                ++k;
            });
        }
        conditions(f, true);
        return f;
    }
    std::vector<rigid> project(field const &u) const
    {
        std::vector<rigid> r(parts.size());
        for (int i = 0; i < (int)parts.size(); ++i)
        {
            for (int d = 0; d < D; ++d) r[i].mean[d] = 0;
            for (double &x : r[i].w) x = 0;
            int k = 0;
            each_sample(i, [&](const ivec<D> &p, std::array<double, D> const &t) {
                std::array<double, D> v, x;
                for (int d = 0; d < D; ++d)
                {
                    v[d] = 0;
                    for (int a = 0; a < nq1<D>(); ++a) v[d] += hat(a, t) * u[at(add<D>(p, corner<D>(a))) * D + d];
                    x[d] = (p[d] + t[d]) * o.hu[d] - sh(i).center_[d];
                    r[i].mean[d] += v[d];
                }
                moment(r[i].w, x, v);
                ++k;
            });
            for (int d = 0; d < D; ++d) r[i].mean[d] /= k;
            for (int d = 0; d < nspin<D>(); ++d) r[i].w[d] /= k;
        }
        return r;
    }
    // the control values at the fluid points of the particles
    field observe(field const &u, std::vector<rigid> const *r) const
    {
        field f(g.size() * D, 0.);
        for (int i = 0; i < (int)parts.size(); ++i)
            each_inside(i, [&](const ivec<D> &p) {
                double w[3];
                std::array<double, D> x, m;
                for (int d = 0; d < D; ++d) { x[d] = p[d] * o.hu[d] - sh(i).center_[d]; m[d] = 0; }
                if (r) { for (int k = 0; k < nspin<D>(); ++k) w[k] = (*r)[i].w[k] * sh(i).Ci_R(); m = spin_at<D>(w, x); for (int d = 0; d < D; ++d) m[d] += (*r)[i].mean[d]; }
                for (int d = 0; d < D; ++d) f[at(p) * D + d] = u[at(p) * D + d] - m[d];
            });
        return f;
    }
    // the control integrated over each particle, and its moment
    template<class F, class T> void same_forces(F const &forces, T const &torques, const char *name, const char *fl, const char *tl) const
    {
        for (int i = 0; i < (int)parts.size(); ++i)
        {
            std::array<double, D> f;
            double t[3] = {0, 0, 0};
            for (int d = 0; d < D; ++d) f[d] = 0;
            each_inside(i, [&](const ivec<D> &p) {
                std::array<double, D> v, r;
                for (int d = 0; d < D; ++d) { v[d] = sym(name, at(p), d); r[d] = p[d] * o.hu[d] - sh(i).center_[d]; f[d] += v[d]; }
                moment(t, r, v);
            });
            double k = sh(i).volume() / ninside(i);
            for (int d = 0; d < D; ++d) sx_assert_eq(forces[i][d], f[d] * k, fl, D * i + d);
            for (int d = 0; d < nspin<D>(); ++d) sx_assert_eq(spinvec<D>::get(torques[i], d), t[d] * k, tl, 3 * i + d);
        }
    }
};
static int sum_ranks(int x) { int r = 0; MPI_Allreduce(&x, &r, 1, MPI_INT, MPI_SUM, PETSC_COMM_WORLD); return r; }
template<int D> void put(DM dm, Vec v, const char *name) { VecSet(v, 0.); fill<D>(dm, v, 0, name, D); fill<D>(dm, v, 1, "pressure", 1); }
template<int D> void same(world<D> const &w, DM dm, Vec v, field const &f, const char *label)
{
    each_owned<D>(dm, v, 0, [&](const ivec<D> &p, double *u) { int l = w.g.lin(p); for (int d = 0; d < D; ++d) sx_assert_eq(u[d], f[l * D + d], label, D * l + d); });
}
template<int D> void watch(DM dm, Vec v, const char *name)
{
    double r = 0;
    int k = 0;
    each_owned<D>(dm, v, 0, [&](const ivec<D> &, double *u) { for (int d = 0; d < D; ++d) r += ++k * u[d]; });
    fx::observe(name, sx_rank(), r);
}
template<int D> void zero_pressure(DM dm, Vec v, const char *label)
{
    each_owned<D>(dm, v, 1, [&](const ivec<D> &, double *u) { sx_assert_eq(u[0], 0., label, 0); });
}
// Reads or fills a control vector. Its entries are the components at the fluid
// points of the particles owned by the process; the order within the vector is
// the library's business, so it is found by asking the library: a control that
// holds at every fluid point its own name.
template<int D> struct control_map { std::vector<int> where; }; // entry -> grid point * D + component
template<int D, class Ctx> control_map<D> find_map(world<D> const &w, Ctx &ctx, int n)
{
    control_map<D> m;
    Vec y;
    DM dm = ctx.problem.ctx->dm;
    Vec keep = ctx.problem.sol, s;
    VecDuplicate(keep, &s);
    each_owned<D>(dm, s, 0, [&](const ivec<D> &p, double *u) { for (int d = 0; d < D; ++d) u[d] = 1 + w.g.lin(p) * D + d; });
    VecCreateMPI(PETSC_COMM_WORLD, n, PETSC_DETERMINE, &y);
    ctx.problem.sol = s;
    problem::compute_y<D, Ctx>(ctx, y);
    ctx.problem.sol = keep;
    const PetscScalar *a;
    VecGetArrayRead(y, &a);
    for (int i = 0; i < n; ++i) m.where.push_back((int)(a[i] + .5) - 1);
    VecRestoreArrayRead(y, &a);
    return m;
}
template<int D> void fill_control(control_map<D> const &m, Vec x, const char *name)
{
    PetscScalar *a;
    VecGetArray(x, &a);
    for (int i = 0; i < (int)m.where.size(); ++i) a[i] = sym(name, m.where[i] / D, m.where[i] % D);
    VecRestoreArray(x, &a);
}
template<int D> void same_control(control_map<D> const &m, Vec x, field const &f, const char *label)
{
    const PetscScalar *a;
    VecGetArrayRead(x, &a);
    for (int i = 0; i < (int)m.where.size(); ++i) sx_assert_eq(a[i], f[m.where[i]], label, m.where[i]);
    VecRestoreArrayRead(x, &a);
}
template<int D> void check_map(world<D> const &w, control_map<D> const &m)
{
    // every fluid point's component is in exactly one place
    int n = 0;
    for (int i = 0; i < (int)w.parts.size(); ++i)
        w.each_inside(i, [&](const ivec<D> &p) {
            for (int d = 0; d < D; ++d)
            {
                int c = 0;
                for (int x : m.where) c += x == w.at(p) * D + d;
                sx_assert_eqi(sum_ranks(c), 1, "control-entry-once", w.at(p) * D + d);
                ++n;
            }
        });
    sx_assert_eqi(sum_ranks(m.where.size()), n, "control-size", 0);
}

template<int D> struct materials
{
    typedef position<double, D> position_type;
    typedef position<int, D> position_type_i;
    std::vector<std::vector<std::pair<position_type_i, position_type>>> surf;
    std::vector<std::vector<geometry::vector<double, D>>> radial;
    std::vector<int> nb, num;
    int size;
    template<class P> materials(world<D> &w, P &pb)
    {
        auto box = fem::get_DM_bounds<D>(pb.ctx->dm, 0);
        size = set_materials(w.parts, surf, radial, nb, num, box, pb.ctx->h, world<D>::dpart(), w.scale);
    }
};
// C27
template<int D> void check_materials()
{
    world<D> w;
    auto pb = fluid<D>::make(w.o, w.mask);
    materials<D> m(w, pb);
    auto box = fem::get_DM_bounds<D>(pb.ctx->dm, 0);
    int total = 0;
    for (int i = 0; i < (int)w.parts.size(); ++i)
    {
        total += w.ninside(i);
        sx_assert_eqi(m.nb[i], w.nsurf(i), "surface-point-count", i);
        sx_assert_eqi(m.num[i], w.nsample(i), "sample-count", i);
        sx_assert_eqi(m.radial[i].size(), m.surf[i].size(), "radial-count", i);
        int mine = 0, k = 0;
        w.each_surface(i, [&](spt<D> const &s) {
            bool own = true;
            for (int d = 0; d < D; ++d) own = own && s.cell[d] >= box.bottom_left[d] && s.cell[d] < box.upper_right[d];
            if (own && mine < (int)m.surf[i].size())
            {
                auto r = w.radius(i, s);
                for (int d = 0; d < D; ++d)
                {
                    sx_assert_eqi(m.surf[i][mine].first[d], s.cell[d], "surface-point-cell", 100 * i + D * k + d);
                    sx_assert_eq(m.surf[i][mine].second[d], s.t[d] * w.o.hu[d], "surface-point-offset", 100 * i + D * k + d);
                    sx_assert_eq(m.radial[i][mine][d], r[d], "surface-point-radius", 100 * i + D * k + d);
                }
            }
            mine += own;
            ++k;
        });
        sx_assert_eqi(m.surf[i].size(), mine, "surface-points-owned", i);
    }
    sx_assert_eqi(sum_ranks(m.size), total, "fluid-point-count", 0);
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    fx::observe("points", sx_rank(), m.size);
    sx_reach("materials");
}
template<int D> using ctx_of = problem::particle_context<D, blob<D>, typename fluid<D>::type>;
template<int D> std::vector<std::vector<geometry::vector<double, D>>> layer_like(materials<D> const &m)
{
    std::vector<std::vector<geometry::vector<double, D>>> g(m.surf.size());
    for (int i = 0; i < (int)g.size(); ++i) g[i].resize(m.surf[i].size());
    return g;
}
// values of the library's layer (own points) against the reference (all points)
template<int D> void same_layer(world<D> const &w, DM dm, std::vector<std::vector<geometry::vector<double, D>>> const &g, typename world<D>::layer const &l, const char *label)
{
    auto box = fem::get_DM_bounds<D>(dm, 0);
    for (int i = 0; i < (int)w.parts.size(); ++i)
    {
        int k = 0, mine = 0;
        w.each_surface(i, [&](spt<D> const &s) {
            bool own = true;
            for (int d = 0; d < D; ++d) own = own && s.cell[d] >= box.bottom_left[d] && s.cell[d] < box.upper_right[d];
            if (own) { for (int d = 0; d < D; ++d) sx_assert_eq(g[i][mine][d], l[i][k][d], label, 100 * i + D * k + d); ++mine; }
            ++k;
        });
    }
}
// C13
template<int D> void check_layers()
{
    world<D> w;
    auto pb = fluid<D>::make(w.o, w.mask);
    materials<D> m(w, pb);
    ctx_of<D> ctx{pb, w.parts, m.surf, m.radial, m.nb, m.num, (std::size_t)w.scale, false, false, false, nullptr};
    DM dm = pb.ctx->dm;
    put<D>(dm, pb.sol, "u");
    auto u = w.named("u");
    auto g = layer_like<D>(m);
    for (auto &x : g) for (auto &y : x) for (int d = 0; d < D; ++d) y[d] = 7.;
    problem::interp_fluid_to_surf(ctx, g);
    auto l = w.interpolate(u, false);
    same_layer<D>(w, dm, g, l, "interpolation");
    auto g2 = layer_like<D>(m);
    problem::interp_fluid_to_surf(ctx, g2, true);
    auto l2 = w.interpolate(u, true);
    same_layer<D>(w, dm, g2, l2, "rigid-motion");
    std::vector<geometry::vector<double, D>> mean(w.parts.size());
    std::vector<typename spinvec<D>::type> cross(w.parts.size());
    // a layer of any values
    typename world<D>::layer any(w.parts.size());
    auto g3 = layer_like<D>(m);
    auto box = fem::get_DM_bounds<D>(dm, 0);
    for (int i = 0; i < (int)w.parts.size(); ++i)
    {
        int k = 0, mine = 0;
        w.each_surface(i, [&](spt<D> const &s) {
            bool own = true;
            std::array<double, D> v;
            for (int d = 0; d < D; ++d) { own = own && s.cell[d] >= box.bottom_left[d] && s.cell[d] < box.upper_right[d]; v[d] = sx_real("layer", 10 * i + k, d, 0); }
            any[i].push_back(v);
            if (own) { for (int d = 0; d < D; ++d) g3[i][mine][d] = v[d]; ++mine; }
            ++k;
        });
    }
    put<D>(dm, pb.rhs, "old");
    problem::SL_to_Rhs(ctx, g3);
    same<D>(w, dm, pb.rhs, w.spread(any), "layer-spread");
    zero_pressure<D>(dm, pb.rhs, "layer-spread-pressure");
    problem::simple_layer(ctx, g3, mean, cross);
    auto r = w.layer_motion(any);
    for (int i = 0; i < (int)w.parts.size(); ++i)
    {
        for (int d = 0; d < D; ++d) sx_assert_eq(mean[i][d], r[i].mean[d], "layer-mean", D * i + d);
        for (int d = 0; d < nspin<D>(); ++d) sx_assert_eq(spinvec<D>::get(cross[i], d), r[i].w[d], "layer-rotation", 3 * i + d);
    }
    same_layer<D>(w, dm, g3, w.remove_motion(any, r), "layer-without-motion");
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    if (m.surf[0].size()) fx::observe("g", sx_rank(), g[0][0][0]);
    sx_reach("layers");
}
// C15
template<int D> void check_projection()
{
    world<D> w;
    auto pb = fluid<D>::make(w.o, w.mask);
    materials<D> m(w, pb);
    ctx_of<D> ctx{pb, w.parts, m.surf, m.radial, m.nb, m.num, (std::size_t)w.scale, false, false, false, nullptr};
    DM dm = pb.ctx->dm;
    auto map = find_map<D>(w, ctx, m.size * D);
    check_map<D>(w, map);
    put<D>(dm, pb.sol, "u");
    auto u = w.named("u");
    std::vector<geometry::vector<double, D>> mean(w.parts.size());
    std::vector<typename spinvec<D>::type> cross(w.parts.size());
    problem::projection<D>(ctx, mean, cross);
    auto r = w.project(u);
    for (int i = 0; i < (int)w.parts.size(); ++i)
    {
        for (int d = 0; d < D; ++d) sx_assert_eq(mean[i][d], r[i].mean[d], "projection-mean", D * i + d);
        for (int d = 0; d < nspin<D>(); ++d) sx_assert_eq(spinvec<D>::get(cross[i], d), r[i].w[d], "projection-rotation", 3 * i + d);
        if (!i) fx::observe("projected", sx_rank(), mean[i][0]);
        // any rigid motion
        for (int d = 0; d < D; ++d) mean[i][d] = r[i].mean[d] = sx_real("mean", i, d, 0);
        for (int d = 0; d < nspin<D>(); ++d) { r[i].w[d] = sx_real("cross", i, d, 0); set(cross[i], d, r[i].w[d]); }
    }
    Vec y;
    VecCreateMPI(PETSC_COMM_WORLD, m.size * D, PETSC_DETERMINE, &y);
    VecSet(y, 5.);
    problem::compute_y<D>(ctx, y, mean, cross);
    same_control<D>(map, y, w.observe(u, &r), "velocity-without-rigid-motion");
    VecSet(y, 5.);
    problem::compute_y<D>(ctx, y);
    same_control<D>(map, y, w.observe(u, nullptr), "velocity-in-particles");
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    sx_reach("projection");
}
// C17: control forces on the right-hand side
template<int D> void check_control()
{
    world<D> w;
    auto pb = fluid<D>::make(w.o, w.mask);
    materials<D> m(w, pb);
    DM dm = pb.ctx->dm;
    int full = fx::cfg("full", "full1", 1), forces = fx::cfg("forces", "forces1", 1);
    ctx_of<D> ctx{pb, w.parts, m.surf, m.radial, m.nb, m.num, (std::size_t)w.scale, (bool)full, false, false, nullptr};
    auto map = find_map<D>(w, ctx, m.size * D);
    check_map<D>(w, map);
    Vec x;
    VecCreateMPI(PETSC_COMM_WORLD, m.size * D, PETSC_DETERMINE, &x);
    fill_control<D>(map, x, "x");
    VecSet(pb.rhs, 0.);
    problem::init_problem<D>(ctx, x, forces);
    same<D>(w, dm, pb.rhs, w.right_hand_side(w.named("x"), full, forces), "control-right-hand-side");
    zero_pressure<D>(dm, pb.rhs, "control-pressure");
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    watch<D>(dm, pb.rhs, "rhs");
    sx_reach("control");
}
// C14
template<int D> void check_forces()
{
    world<D> w;
    auto pb = fluid<D>::make(w.o, w.mask);
    materials<D> m(w, pb);
    ctx_of<D> ctx{pb, w.parts, m.surf, m.radial, m.nb, m.num, (std::size_t)w.scale, false, false, false, nullptr};
    auto map = find_map<D>(w, ctx, m.size * D);
    Vec x;
    VecCreateMPI(PETSC_COMM_WORLD, m.size * D, PETSC_DETERMINE, &x);
    fill_control<D>(map, x, "x");
    auto box = fem::get_DM_bounds<D>(pb.ctx->dm, 0);
    std::vector<geometry::vector<double, D>> forces(w.parts.size());
    std::vector<typename spinvec<D>::type> torques(w.parts.size());
    std::vector<int> n;
    for (int i = 0; i < (int)w.parts.size(); ++i) { n.push_back(w.ninside(i)); for (int d = 0; d < D; ++d) forces[i][d] = 3.; for (int d = 0; d < nspin<D>(); ++d) set(torques[i], d, 2.); }
    forces_torques_with_control(w.parts, x, box, forces, torques, n, pb.ctx->h, false);
    w.same_forces(forces, torques, "x", "force", "torque");
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    fx::observe("force", sx_rank(), forces[0][0]);
    sx_reach("forces");
}
// C18: the control problems as a whole
template<int D> void check_sem()
{
    world<D> w;
    auto pb = fluid<D>::make(w.o, w.mask);
    hx_opt_str("-sem_ksp_type", "preonly");
    auto s = make_SEM(w.parts, pb, world<D>::dpart());
    s.create_Mat_and_Vec();
    PetscInt n;
    VecGetLocalSize(s.sol, &n);
    auto map = find_map<D>(w, *s.ctx, n);
    check_map<D>(w, map);
    auto apply = [&](field const &x, bool full) {
        auto u = w.right_hand_side(x, full, full);
        auto l = w.interpolate(u, false);
        u = w.spread(w.remove_motion(l, w.layer_motion(l)));
        auto r = w.project(u);
        return w.observe(u, &r);
    };
    // the control matrix; twice, from any state of the fluid problem
    field x = w.named("x"), x2 = w.named("x2"), zero(x.size(), 0.);
    Vec a, b;
    VecDuplicate(s.sol, &a);
    VecDuplicate(s.sol, &b);
    DM dm = s.problem_.ctx->dm;
    put<D>(dm, s.problem_.rhs, "oldr");
    put<D>(dm, s.problem_.sol, "olds");
    s.ctx->compute_rhs = false;
    fill_control<D>(map, a, "x");
    MatMult(s.A, a, b);
    same_control<D>(map, b, apply(x, false), "sem-matrix");
    fill_control<D>(map, a, "x2");
    MatMult(s.A, a, b);
    same_control<D>(map, b, apply(x2, false), "sem-matrix-again");
    VecSet(s.sol, 0.);
    s.setup_RHS();
    auto r = apply(zero, true);
    for (auto &v : r) v = -v;
    same_control<D>(map, s.rhs, r, "sem-right-hand-side");
    s.setup_KSP();
    s.solve();
    // the solver is told to return the right-hand side
    watch<D>(dm, s.problem_.sol, "fluid");
    same_control<D>(map, s.sol, r, "sem-control");
    same<D>(w, dm, s.problem_.sol, w.right_hand_side(r, true, true), "sem-fluid");
    if (sx_cfg("twice", 1))
    {
        VecSet(s.sol, 0.);
        s.setup_RHS();
        same_control<D>(map, s.rhs, r, "sem-right-hand-side-again");
        s.solve();
        same<D>(w, dm, s.problem_.sol, w.right_hand_side(r, true, true), "sem-fluid-again");
    }
    // forces and torques of a control
    fill_control<D>(map, s.sol, "x");
    std::vector<geometry::vector<double, D>> forces(w.parts.size());
    std::vector<typename spinvec<D>::type> torques(w.parts.size());
    s.get_new_forces_torques(forces, torques);
    w.same_forces(forces, torques, "x", "new-force", "new-torque");
    // velocities: mean over the surface points
    put<D>(dm, s.problem_.sol, "v");
    s.get_new_velocities();
    auto l = w.interpolate(w.named("v"), false);
    auto mo = w.layer_motion(l);
    for (int i = 0; i < (int)w.parts.size(); ++i) for (int d = 0; d < D; ++d) sx_assert_eq(s.parts_[i].velocity_[d], mo[i].mean[d], "new-velocity", D * i + d);
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    sx_reach("sem");
}
template<int D> void check_dton() {}
template<> void check_dton<2>() // three dimensions: the library's last solve is not written
{
    constexpr int D = 2;
    world<D> w;
    auto pb = fluid<D>::make(w.o, w.mask);
    hx_opt_str("-dton_ksp_type", "preonly");
    auto s = make_DtoN(w.parts, pb, world<D>::dpart());
    s.create_Mat_and_Vec();
    PetscInt n;
    VecGetLocalSize(s.sol, &n);
    auto map = find_map<D>(w, *s.ctx, n);
    check_map<D>(w, map);
    auto apply = [&](field const &x, bool full, bool rigid) {
        auto u = w.right_hand_side(x, full, false);
        return w.observe(w.spread(w.interpolate(u, rigid)), nullptr);
    };
    field x = w.named("x"), x2 = w.named("x2"), zero(x.size(), 0.);
    Vec a, b;
    VecDuplicate(s.sol, &a);
    VecDuplicate(s.sol, &b);
    DM dm = s.problem_.ctx->dm;
    put<D>(dm, s.problem_.rhs, "oldr");
    put<D>(dm, s.problem_.sol, "olds");
    s.ctx->compute_rhs = s.ctx->add_rigid_motion = s.ctx->compute_singularity = false;
    fill_control<D>(map, a, "x");
    MatMult(s.A, a, b);
    same_control<D>(map, b, apply(x, false, false), "dton-matrix");
    fill_control<D>(map, a, "x2");
    MatMult(s.A, a, b);
    same_control<D>(map, b, apply(x2, false, false), "dton-matrix-again");
    VecSet(s.sol, 0.);
    s.setup_RHS();
    auto r = apply(zero, true, true);
    for (auto &v : r) v = -v;
    same_control<D>(map, s.rhs, r, "dton-right-hand-side");
    s.setup_KSP();
    s.solve();
    watch<D>(dm, s.problem_.sol, "fluid");
    same_control<D>(map, s.sol, r, "dton-control");
    same<D>(w, dm, s.problem_.sol, w.right_hand_side(r, true, false), "dton-fluid");
    if (sx_cfg("twice", 1))
    {
        VecSet(s.sol, 0.);
        s.setup_RHS();
        same_control<D>(map, s.rhs, r, "dton-right-hand-side-again");
        s.solve();
        same<D>(w, dm, s.problem_.sol, w.right_hand_side(r, true, false), "dton-fluid-again");
    }
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
    sx_reach("dton");
}
template<int D> void run()
{
    switch (sx_cfg("part", 0))
    {
    case 0: check_materials<D>(); break;
    case 1: check_layers<D>(); break;
    case 2: check_projection<D>(); break;
    case 3: check_control<D>(); break;
    case 4: check_forces<D>(); break;
    case 5: check_sem<D>(); break;
    case 6: check_dton<D>(); break;
    }
}
static void body()
{
    fx::after_another([] { sx_cfg("dim", 2) == 2 ? run<2>() : run<3>(); });
}
extern "C" void sx_main() { sx_run_ranks(sx_cfg("np", 1), body); }
