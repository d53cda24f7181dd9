// C19: the lubrication (singular) field between two close particles.
// the truncation is examined on its own (part 0); elsewhere it may be any function of r^2
#define chiTrunc real_chiTrunc
#define dchiTrunc real_dchiTrunc
#define d2chiTrunc real_d2chiTrunc
#define d3chiTrunc real_d3chiTrunc
#include <particle/singularity/truncation.hpp>
#undef chiTrunc
#undef dchiTrunc
#undef d2chiTrunc
#undef d3chiTrunc
#include <symx.h>
static int opaque = 0;
static double chi_k(int k, double X, double l, double e)
{
    using namespace cafes::singularity;
    if (opaque && sx_symbolic()) return sx_real("chi", k, 0, 0);
    if (opaque) l = e = 1.2 * (X * X > .1 ? X * X : .1);
    return k == 0 ? real_chiTrunc(X, l, e) : k == 1 ? real_dchiTrunc(X, l, e) : k == 2 ? real_d2chiTrunc(X, l, e) : real_d3chiTrunc(X, l, e);
}
namespace cafes { namespace singularity {
    PetscScalar chiTrunc(PetscReal X, PetscReal l, PetscReal eps) { return chi_k(0, X, l, eps); }
    PetscScalar dchiTrunc(PetscReal X, PetscReal l, PetscReal eps) { return chi_k(1, X, l, eps); }
    PetscScalar d2chiTrunc(PetscReal X, PetscReal l, PetscReal eps) { return chi_k(2, X, l, eps); }
    PetscScalar d3chiTrunc(PetscReal X, PetscReal l, PetscReal eps) { return chi_k(3, X, l, eps); }
}}
#include <fem.h>
#include <particle/particle.hpp>
#include <particle/singularity/add_singularity.hpp>
using namespace cafes;
using geometry::position;
namespace sg = cafes::singularity;

static double sq(double x) { return x * x; }
static double absv(double x) { return x < 0 ? -x : x; }
// equality of a value with a derivative, which is only approximate natively
static void eq_diff(double v, double d, const char *l, int t)
{
    if (!sx_symbolic() && absv(v - d) <= 1e-4 * (1. + absv(v) + absv(d))) d = v;
    sx_assert_eq(v, d, l, t);
}

// alpha' = c (1-t^2)^4, alpha(0) = 0, alpha(1) = 1
static double ref_alpha(double t) { double u = t * t; return 315. / 128. * t * (1 - u * (4. / 3. - u * (6. / 5. - u * (4. / 7. - u / 9.)))); }
// part 0: the truncation function of X^2 and its derivatives with respect to X^2
static void truncation()
{
    double l = sx_real_pos("l", 0, 0, 0), e = sx_real_pos("eps", 0, 0, 0), x = sx_real("x", 0, 0, 0);
    sx_assume(e <= l);
    double x2 = x * x, t = (x2 - l) / e;
    double v[5] = {sg::chiTrunc(x, l, e), sg::dchiTrunc(x, l, e), sg::d2chiTrunc(x, l, e), sg::d3chiTrunc(x, l, e), sg::d4chiTrunc(x, l, e)};
    sx_observe("chi", 0, v[0]);
    int where = x2 < l - e ? 0 : x2 < l + e ? 1 : 2;
    if (where != 1)
    {
        sx_reach(where ? "outside" : "inside");
        sx_assert_eq(v[0], where ? 0. : 1., "truncation-value", where);
        for (int k = 1; k < 5; ++k) sx_assert_eq(v[k], 0., "truncation-derivatives", 10 * where + k);
    }
    else
    {
        sx_reach("between");
        sx_assert_eq(v[0], .5 * (1 - ref_alpha(t)), "truncation-value", 1);
        for (int k = 1; k < 5; ++k)
        {
            auto f = [&](double y) { return k == 1 ? sg::chiTrunc(y, l, e) : k == 2 ? sg::dchiTrunc(y, l, e) : k == 3 ? sg::d2chiTrunc(y, l, e) : sg::d3chiTrunc(y, l, e); };
            eq_diff(v[k] * 2 * x, hx_diff(f, x), "truncation-derivatives", 10 + k);
        }
        sx_assert_le(v[0], 1., "truncation-value", 3);
        sx_assert_le(0., v[0], "truncation-value", 4);
    }
}

static void chi_rules(double r)
{
    if (opaque && sx_symbolic()) for (int k = 0; k < 3; ++k) sx_diff_rule(chi_k(k, 0., 1., 1.), r, 2 * r * chi_k(k + 1, 0., 1., 1.));
}
struct fields
{
    double H, M, a, U, l, e;
    fields(double H_, double M_, double a_, double U_, double l_) : H(H_), M(M_), a(a_), U(U_), l(l_), e(l_) {}
    fields()
    {
        H = sx_real_pos("H", 0, 0, 0); M = sx_real_pos("M", 0, 0, 0); a = sx_real_pos("a", 0, 0, 0);
        U = sx_real("U", 0, 0, 0); l = sx_real_pos("l", 0, 0, 0);
        e = l;
    }
};
// part 1: the planar field; axis: first coordinate, across: second
static void planar()
{
    fields k;
    double z = sx_real("z", 0, 0, 0), r = sx_real("r", 0, 0, 0);
    sx_assume(r * r < 2 * k.l);
    chi_rules(r);
#define F2(n, z_, r_) sg::n##_normalMvt2D(position<double, 2>{z_, r_}, k.H, k.M, k.a, k.U, k.l, k.e, NULL)
    auto ux = [&](double z_, double r_) { return F2(ux_sing, z_, r_); };
    auto uz = [&](double z_, double r_) { return F2(uz_sing, z_, r_); };
    int what = sx_cfg("what", 0);
    if (what == 0)
    {
        eq_diff(F2(dxux_sing, z, r), hx_diff([&](double t) { return ux(t, r); }, z), "gradient", 0);
        eq_diff(F2(dxuz_sing, z, r), hx_diff([&](double t) { return uz(t, r); }, z), "gradient", 2);
        eq_diff(F2(dzuz_sing, z, r), hx_diff([&](double t) { return uz(z, t); }, r), "gradient", 3);
        sx_assert_eq(F2(dxux_sing, z, r) + F2(dzuz_sing, z, r), 0., "divergence-free", 0);
        sx_assert_eq(F2(DIVCART, z, r), 0., "divergence-free", 1);
    }
    if (what == 1) eq_diff(F2(dzux_sing, z, r), hx_diff([&](double t) { return ux(z, t); }, r), "gradient", 1);
    if (what == 2)
    {
        // no tangential motion of the two walls; the normal motions differ by the truncated relative velocity
        double z1 = -k.H * r * r / 2, z2 = k.a + k.M * r * r / 2;
        sx_assert_eq(uz(z1, r), 0., "no-slip", 0);
        sx_assert_eq(uz(z2, r), 0., "no-slip", 1);
        double x = sg::chiTrunc(r, k.l, k.e), dx = sg::dchiTrunc(r, k.l, k.e);
        sx_assert_eq(ux(z2, r) - ux(z1, r), k.U * (x + 2 * r * r * dx), "relative-motion", 0);
        int o = opaque;
        opaque = 0;
        sx_assert_eq(ux(k.a, 0.) - ux(0., 0.), k.U, "relative-motion", 1);
        opaque = o;
        // pressure driven: d2 uz / dz2 = dp/dr, up to the truncation
        double p_r = hx_diff([&](double t) { return F2(p_sing_withT, z, t); }, r);
        double uz_zz = hx_diff([&](double t) { return F2(dxuz_sing, t, r); }, z);
        double D = 2 * k.a + (k.H + k.M) * r * r;
        eq_diff(uz_zz, p_r + 24 * k.U / ((k.H + k.M) * D * D) * 2 * r * dx, "lubrication-balance", 0);
        sx_assert_eq(F2(p_sing_withT, z, r) * (k.H + k.M) * D * D, -24 * k.U * x, "pressure", 0);
    }
}
// what lies beyond the truncation is zero
static void beyond()
{
    fields k;
    double z = sx_real("z", 0, 0, 0), r = sx_real("r", 0, 0, 0);
    sx_assume(r * r >= 2 * k.l);
    position<double, 2> X{z, r};
    double v2[] = {F2(ux_sing, z, r), F2(uz_sing, z, r), F2(dxux_sing, z, r), F2(dzux_sing, z, r), F2(dxuz_sing, z, r), F2(dzuz_sing, z, r), F2(p_sing_withT, z, r)};
    for (int i = 0; i < 7; ++i) sx_assert_eq(v2[i], 0., "truncated", i);
#define F3(n, x_, y_, z_) sg::n##_normalMvt3D(position<double, 3>{x_, y_, z_}, k.H, k.M, k.a, k.U, k.l, k.e, NULL)
    double v3[] = {F3(ux_sing, r, 0., z), F3(uy_sing, r, 0., z), F3(uz_sing, r, 0., z), F3(p_sing_withT, r, 0., z),
                   F3(dxux_sing, r, 0., z), F3(dyux_sing, r, 0., z), F3(dzux_sing, r, 0., z), F3(dxuy_sing, r, 0., z), F3(dyuy_sing, r, 0., z),
                   F3(dzuy_sing, r, 0., z), F3(dxuz_sing, r, 0., z), F3(dyuz_sing, r, 0., z), F3(dzuz_sing, r, 0., z)};
    for (int i = 0; i < 13; ++i) sx_assert_eq(v3[i], 0., "truncated", 10 + i);
}
// part 2: the axisymmetric field in space; axis: third coordinate
static void axisymmetric()
{
    fields k;
    double z = sx_real("z", 0, 0, 0), r = sx_real_pos("r", 0, 0, 0);
    sx_assume(r * r < 2 * k.l);
    chi_rules(r);
    auto ur = [&](double r_, double z_) { return F3(ur_sing, r_, 0., z_); };
    auto uz = [&](double r_, double z_) { return F3(uz_sing, r_, 0., z_); };
    int what = sx_cfg("what", 0);
    if (what == 0)
    {
        eq_diff(F3(drur_sing, r, 0., z), hx_diff([&](double t) { return ur(t, z); }, r), "gradient", 0);
        eq_diff(F3(dzur_sing, r, 0., z), hx_diff([&](double t) { return ur(r, t); }, z), "gradient", 1);
        eq_diff(F3(dzuz_sing, r, 0., z), hx_diff([&](double t) { return uz(r, t); }, z), "gradient", 3);
        sx_assert_eq(F3(drur_sing, r, 0., z) + ur(r, z) / r + F3(dzuz_sing, r, 0., z), 0., "divergence-free", 0);
        sx_assert_eq(F3(DIVCYLIND, r, 0., z), 0., "divergence-free", 1);
    }
    if (what == 1) eq_diff(F3(druz_sing, r, 0., z), hx_diff([&](double t) { return uz(t, z); }, r), "gradient", 2);
    if (what == 2)
    {
        double z1 = -k.H * r * r / 2, z2 = k.a + k.M * r * r / 2;
        sx_assert_eq(ur(r, z1), 0., "no-slip", 0);
        sx_assert_eq(ur(r, z2), 0., "no-slip", 1);
        int o = opaque;
        opaque = 0;
        sx_assert_eq(uz(0., k.a) - uz(0., 0.), k.U, "relative-motion", 1);
        opaque = o;
        double x = sg::chiTrunc(r, k.l, k.e);
        double D = 2 * k.a + (k.H + k.M) * r * r;
        sx_assert_eq(F3(p_sing_withT, r, 0., z) * (k.H + k.M) * D * D, -12 * k.U * x, "pressure", 0);
    }
    if (what == 3)
    {
        // components in the plane
        double x = sx_real("x", 0, 0, 0), y = sx_real("y", 0, 0, 0);
        sx_assume(x * x + y * y > 0);
        r = std::sqrt(x * x + y * y);
        double c = x / r, s = y / r;
        if (!(r * r < 2 * k.l)) k.l = k.e = r * r; // r is not the input here
        double u = ur(r, z), w = uz(r, z), ur_r = F3(drur_sing, r, 0., z), ur_z = F3(dzur_sing, r, 0., z), w_r = F3(druz_sing, r, 0., z), w_z = F3(dzuz_sing, r, 0., z);
        sx_assert_eq(F3(ux_sing, x, y, z), u * c, "axisymmetric", 0);
        sx_assert_eq(F3(uy_sing, x, y, z), u * s, "axisymmetric", 1);
        sx_assert_eq(F3(uz_sing, x, y, z), w, "axisymmetric", 2);
        sx_assert_eq(F3(dxux_sing, x, y, z), ur_r * c * c + u / r * s * s, "axisymmetric", 10);
        sx_assert_eq(F3(dyux_sing, x, y, z), (ur_r - u / r) * c * s, "axisymmetric", 11);
        sx_assert_eq(F3(dzux_sing, x, y, z), ur_z * c, "axisymmetric", 12);
        sx_assert_eq(F3(dxuy_sing, x, y, z), (ur_r - u / r) * c * s, "axisymmetric", 13);
        sx_assert_eq(F3(dyuy_sing, x, y, z), ur_r * s * s + u / r * c * c, "axisymmetric", 14);
        sx_assert_eq(F3(dzuy_sing, x, y, z), ur_z * s, "axisymmetric", 15);
        sx_assert_eq(F3(dxuz_sing, x, y, z), w_r * c, "axisymmetric", 16);
        sx_assert_eq(F3(dyuz_sing, x, y, z), w_r * s, "axisymmetric", 17);
        sx_assert_eq(F3(dzuz_sing, x, y, z), w_z, "axisymmetric", 18);
    }
    if (what == 4)
    {
        // on the axis
        double ur_r = F3(drur_sing, 0., 0., z);
        sx_assert_eq(F3(ux_sing, 0., 0., z), 0., "axis", 0);
        sx_assert_eq(F3(uy_sing, 0., 0., z), 0., "axis", 1);
        sx_assert_eq(F3(dxux_sing, 0., 0., z), ur_r, "axis", 2);
        sx_assert_eq(F3(dyuy_sing, 0., 0., z), ur_r, "axis", 3);
        sx_assert_eq(F3(dyux_sing, 0., 0., z), 0., "axis", 4);
        sx_assert_eq(F3(dxuy_sing, 0., 0., z), 0., "axis", 5);
        sx_assert_eq(F3(dzux_sing, 0., 0., z), 0., "axis", 6);
        sx_assert_eq(F3(dzuy_sing, 0., 0., z), 0., "axis", 7);
        sx_assert_eq(F3(dxuz_sing, 0., 0., z), 0., "axis", 8);
        sx_assert_eq(F3(dyuz_sing, 0., 0., z), 0., "axis", 9);
        sx_assert_eq(F3(dxux_sing, 0., 0., z) + F3(dyuy_sing, 0., 0., z) + F3(dzuz_sing, 0., 0., z), 0., "axis", 10);
    }
}

// ---------------------------------------------------------------- two particles
template<int D> using vecd = std::array<double, D>;
template<int D> struct ball;
template<> struct ball<2>
{
    typedef geometry::circle<> type;
    static type make(vecd<2> const &c, double r) { return make_circle({c[0], c[1]}, r); }
};
template<> struct ball<3>
{
    typedef geometry::sphere<> type;
    static type make(vecd<3> const &c, double r) { return make_sphere({c[0], c[1], c[2]}, r); }
};
template<int D> using part = particle<typename ball<D>::type>;
template<int D> part<D> make_part(vecd<D> const &c, double r, vecd<D> const &v)
{
    physics::velocity<D> w;
    for (int d = 0; d < D; ++d) w[d] = v[d];
    return part<D>(ball<D>::make(c, r), w, typename part<D>::angular_velocity_type{});
}
// orthonormal directions: the axis and what is across it
template<int D> struct dirs { vecd<D> n, t, b; };
static dirs<2> directions(std::integral_constant<int, 2>, int k)
{
    static const double l[][3] = {{1, 0, 1}, {3, 4, 5}, {0, -1, 1}, {-12, 5, 13}, {-1, 0, 1}, {0, 1, 1}, {-3, -4, 5}};
    dirs<2> r;
    r.n = {{l[k][0] / l[k][2], l[k][1] / l[k][2]}};
    r.t = {{-r.n[1], r.n[0]}};
    r.b = {{0., 0.}};
    return r;
}
static dirs<3> directions(std::integral_constant<int, 3>, int k)
{
    static const double l[][4] = {{0, 0, 1, 1}, {1, 0, 0, 1}, {1, 2, 2, 3}, {0, 1, 0, 1}, {-2, 3, 6, 7}, {0, 0, -1, 1}, {6, -2, -3, 7}, {2, 3, 6, 7}};
    static const double m[][4] = {{1, 0, 0, 1}, {0, 1, 0, 1}, {2, 1, -2, 3}, {1, 0, 0, 1}, {3, 6, -2, 7}, {1, 0, 0, 1}, {2, -3, 6, 7}, {33, -10, -6, 35}};
    dirs<3> r;
    // from 7 on: the same general pair of directions in each octant
    int o = k < 7 ? 0 : k - 7;
    if (k > 7) k = 7;
    for (int d = 0; d < 3; ++d) { double g = o >> d & 1 ? -1. : 1.; r.n[d] = g * l[k][d] / l[k][3]; r.t[d] = g * m[k][d] / m[k][3]; }
    for (int d = 0; d < 3; ++d) { int a = (d + 1) % 3, c = (d + 2) % 3; r.b[d] = r.n[a] * r.t[c] - r.n[c] * r.t[a]; }
    return r;
}
template<int D> double dot(vecd<D> const &a, vecd<D> const &b) { double r = 0; for (int d = 0; d < D; ++d) r += a[d] * b[d]; return r; }
// the field in the frame of the domain, from the functions of the distance to the axis
template<int D> struct value { vecd<D> u; std::array<vecd<D>, D> g; double p; };
// s along the axis from the surface of the first particle, x across
static value<2> oracle(fields const &k, dirs<2> const &e, double s, double x, double, bool = false)
{
    double u[2] = {F2(ux_sing, s, x), F2(uz_sing, s, x)};
    double g[2][2] = {{F2(dxux_sing, s, x), F2(dzux_sing, s, x)}, {F2(dxuz_sing, s, x), F2(dzuz_sing, s, x)}};
    value<2> v;
    v.p = F2(p_sing_withT, s, x);
    const vecd<2> *b[2] = {&e.n, &e.t};
    for (int i = 0; i < 2; ++i)
    {
        v.u[i] = 0;
        for (int m = 0; m < 2; ++m) v.u[i] += (*b[m])[i] * u[m];
        for (int j = 0; j < 2; ++j)
        {
            v.g[i][j] = 0;
            for (int m = 0; m < 2; ++m) for (int n = 0; n < 2; ++n) v.g[i][j] += (*b[m])[i] * (*b[n])[j] * g[m][n];
        }
    }
    return v;
}
static value<3> oracle(fields const &k, dirs<3> const &e, double s, double x, double y, bool off = false)
{
    if (off)
    {
        // from the components in the plane, which part 2 derives from the functions below
        double u[3] = {F3(ux_sing, x, y, s), F3(uy_sing, x, y, s), F3(uz_sing, x, y, s)};
        double g[3][3] = {{F3(dxux_sing, x, y, s), F3(dyux_sing, x, y, s), F3(dzux_sing, x, y, s)},
                          {F3(dxuy_sing, x, y, s), F3(dyuy_sing, x, y, s), F3(dzuy_sing, x, y, s)},
                          {F3(dxuz_sing, x, y, s), F3(dyuz_sing, x, y, s), F3(dzuz_sing, x, y, s)}};
        const vecd<3> *b[3] = {&e.t, &e.b, &e.n};
        value<3> v;
        v.p = F3(p_sing_withT, x, y, s);
        for (int i = 0; i < 3; ++i)
        {
            v.u[i] = 0;
            for (int m = 0; m < 3; ++m) v.u[i] += (*b[m])[i] * u[m];
            for (int j = 0; j < 3; ++j)
            {
                v.g[i][j] = 0;
                for (int m = 0; m < 3; ++m) for (int n = 0; n < 3; ++n) v.g[i][j] += (*b[m])[i] * (*b[n])[j] * g[m][n];
            }
        }
        return v;
    }
    double r = std::sqrt(x * x + y * y);
    double u = F3(ur_sing, r, 0., s), w = F3(uz_sing, r, 0., s), ur = F3(drur_sing, r, 0., s), uz = F3(dzur_sing, r, 0., s), wr = F3(druz_sing, r, 0., s), wz = F3(dzuz_sing, r, 0., s);
    value<3> v;
    v.p = F3(p_sing_withT, r, 0., s);
    vecd<3> q;
    bool axis = !off && !(r > 0);
    double q0 = axis ? 0. : x / r, q1 = axis ? 0. : y / r, ur0 = axis ? ur : u / r;
    vecd<3> o;
    for (int i = 0; i < 3; ++i) { q[i] = q0 * e.t[i] + q1 * e.b[i]; o[i] = q0 * e.b[i] - q1 * e.t[i]; }
    if (axis) { q = e.t; o = e.b; }
    for (int i = 0; i < 3; ++i)
    {
        v.u[i] = u * q[i] + w * e.n[i];
        for (int j = 0; j < 3; ++j)
            v.g[i][j] = ur * q[i] * q[j] + ur0 * o[i] * o[j] + uz * q[i] * e.n[j] + wr * e.n[i] * q[j] + wz * e.n[i] * e.n[j];
    }
    return v;
}
// part 4: the frame of two particles
template<int D> struct pair
{
    dirs<D> e;
    double r1, r2, L, U, W;
    vecd<D> c1, c2, v1, v2;
    pair()
    {
        e = directions(std::integral_constant<int, D>{}, sx_cfg("dir", 0));
        // by their curvatures and the gap
        r1 = 1. / sx_real_pos("H", 1, 0, 0); r2 = 1. / sx_real_pos("H", 2, 0, 0);
        L = r1 + r2 + sx_real_pos("a", 0, 0, 0);
        U = sx_real("U", 0, 0, 0);
        W = sx_cfg("slide", 0) ? sx_real_pos("W", 0, 0, 0) : 0.;
        for (int d = 0; d < D; ++d)
        {
            c1[d] = sx_real("c", d, 0, 0); c2[d] = c1[d] + L * e.n[d];
            v1[d] = sx_real("v", d, 0, 0); v2[d] = v1[d] + U * e.n[d] + W * e.t[d];
        }
    }
};
template<int D> void frame()
{
    pair<D> k;
    double h = sx_real_pos("h", 0, 0, 0), a = sx_real_pos("a", 0, 0, 0);
    sx_assume(a < 1);
    auto p1 = make_part<D>(k.c1, k.r1, k.v1), p2 = make_part<D>(k.c2, k.r2, k.v2);
    sg::singularity<typename ball<D>::type, D> s(p1, p2, h);
    sx_assert(s.is_singularity_, "close", 0);
    double x = sx_real("x", 0, 0, 0), y = D == 3 ? sx_real("y", 0, 0, 0) : 0., z = sx_real("z", 0, 0, 0);
    position<double, D> pos, ref;
    for (int d = 0; d < D; ++d) pos[d] = k.c1[d] + (k.r1 + z) * k.e.n[d] + x * k.e.t[d] + y * k.e.b[d];
    auto in = s.get_pos_in_part_ref(pos);
    // the axis goes from the surface of the first particle to the second, lengths are kept
    double across = 0;
    for (int d = 0; d < D - 1; ++d) across += sq(in[D == 2 ? 1 : d]);
    sx_assert_eq(in[D == 2 ? 0 : 2], z, "frame", 0);
    sx_assert_eq(across, x * x + y * y, "frame", 1);
    auto back = s.get_pos_from_part_ref(in);
    for (int d = 0; d < D; ++d) sx_assert_eq(back[d], pos[d], "frame", 10 + d);
    for (int d = 0; d < D; ++d) ref[d] = sx_real("ref", d, 0, 0);
    auto from = s.get_pos_from_part_ref(ref);
    auto again = s.get_pos_in_part_ref(from);
    for (int d = 0; d < D; ++d) sx_assert_eq(again[d], ref[d], "frame", 20 + d);
    sx_assert_eq(s.UN_, k.U, "relative-velocity", 0);
    sx_assert_eq(s.contact_length_, a, "gap", 0);
    // the field, at the point and in the frame just examined
    if (sx_cfg("nofield", 0)) return;
    dirs<D> e;
    position<double, D> zero;
    for (int d = 0; d < D; ++d) zero[d] = 0.;
    auto o = s.get_pos_from_part_ref(zero);
    for (int i = 0; i < D; ++i)
    {
        zero[i] = 1.;
        auto q = s.get_pos_from_part_ref(zero);
        zero[i] = 0.;
        vecd<D> &w = i == (D == 2 ? 0 : 2) ? e.n : i == (D == 2 ? 1 : 0) ? e.t : e.b;
        for (int d = 0; d < D; ++d) w[d] = q[d] - o[d];
    }
    sx_assume(across > 0);
    sx_assume(across < 2 * s.param_);
    fields f(s.H1_, s.H2_, s.contact_length_, s.UN_, s.param_);
    sx_assert_eq(s.H1_ * k.r1, 1., "gap", 1);
    sx_assert_eq(s.H2_ * k.r2, 1., "gap", 2);
    auto v = oracle(f, e, in[D == 2 ? 0 : 2], in[D == 2 ? 1 : 0], in[D - 2], true);
    auto u = s.get_u_sing(pos);
    auto g = s.get_grad_u_sing(pos);
    double p = s.get_p_sing(pos);
    sx_assert_eq(p, v.p, "pressure", 1);
    for (int i = 0; i < D; ++i)
    {
        sx_assert_eq(u[i], v.u[i], "field", i);
        for (int j = 0; j < D; ++j) sx_assert_eq(g[i][j], v.g[i][j], "field", 10 + 3 * i + j);
    }
}
// concrete pairs, in units of the mesh of the small domain
template<int D> struct scene
{
    std::vector<vecd<D>> c;
    std::vector<double> r;
    std::vector<vecd<D>> v;
    std::vector<part<D>> p;
    void add(vecd<D> const &c_, double r_, int sym)
    {
        vecd<D> w;
        int id = c.size();
        for (int d = 0; d < D; ++d)
        {
            w[d] = sym ? sx_real("v", id, d, 0) : 0.;
            if (sym) { sx_assume(w[d] <= 1); sx_assume(-1 <= w[d]); }
        }
        add(c_, r_, w);
    }
    void add(vecd<D> const &c_, double r_, vecd<D> const &w)
    {
        c.push_back(c_); r.push_back(r_); v.push_back(w);
        p.push_back(make_part<D>(c_, r_, w));
    }
    // p0: on the surface of the first particle
    void two(vecd<D> const &p0, int dir, double r1, double r2, double a, int slide)
    {
        auto e = directions(std::integral_constant<int, D>{}, dir);
        vecd<D> c1, c2, v1, v2;
        double U = sx_real("U", 0, 0, 0), W = slide ? sx_real_pos("W", 0, 0, 0) : 0.;
        sx_assume(U <= 1); sx_assume(-1 <= U);
        if (slide) sx_assume(W <= 1);
        for (int d = 0; d < D; ++d)
        {
            c1[d] = p0[d] - r1 * e.n[d]; c2[d] = p0[d] + (a + r2) * e.n[d];
            v1[d] = sx_real("v", d, 0, 0);
            sx_assume(v1[d] <= 1); sx_assume(-1 <= v1[d]);
            v2[d] = v1[d] + U * e.n[d] + W * e.t[d];
        }
        add(c1, r1, v1);
        add(c2, r2, v2);
    }
};
template<int D> bool across_axis(dirs<D> const &e, vecd<D> const &q, double &s, double &x, double &y)
{
    s = dot<D>(e.n, q); x = dot<D>(e.t, q); y = D == 3 ? dot<D>(e.b, q) : 0.;
    return true;
}
template<int D> struct couple
{
    dirs<D> e;
    fields f;
    double r1, r2, a, cut;
    vecd<D> c1, c2, o;
    bool close;
    couple(scene<D> const &sc, int i, int j, double h) : f(1., 1., 1., 0., 1.)
    {
        c1 = sc.c[i]; c2 = sc.c[j]; r1 = sc.r[i]; r2 = sc.r[j];
        vecd<D> dv;
        double L = 0;
        for (int d = 0; d < D; ++d) { e.n[d] = c2[d] - c1[d]; L += sq(e.n[d]); dv[d] = sc.v[j][d] - sc.v[i][d]; }
        L = std::sqrt(L);
        for (int d = 0; d < D; ++d) { e.n[d] /= L; o[d] = c1[d] + r1 * e.n[d]; }
        a = L - r1 - r2;
        close = a < 1.;
        frame(std::integral_constant<int, D>{});
        double m = r1 < r2 ? r1 : r2, K = .5 * (1. / r1 + 1. / r2);
        cut = 4. * std::sqrt(a / K);
        if (cut > m) cut = m;
        if (cut < std::sqrt(2.) * h) cut = std::sqrt(2.) * h;
        f = fields(1. / r1, 1. / r2, a, dot<D>(dv, e.n), .5 * cut * cut);
    }
    void frame(std::integral_constant<int, 2>) { e.t = {{-e.n[1], e.n[0]}}; e.b = {{0., 0.}}; }
    void frame(std::integral_constant<int, 3>)
    {
        // any direction across
        int k = 0;
        for (int d = 1; d < 3; ++d) if (absv(e.n[d]) < absv(e.n[k])) k = d;
        double q = 0;
        for (int d = 0; d < D; ++d) { e.t[d] = (d == k) - e.n[k] * e.n[d]; q += sq(e.t[d]); }
        for (int d = 0; d < D; ++d) e.t[d] /= std::sqrt(q);
        for (int d = 0; d < 3; ++d) { int l = (d + 1) % 3, m = (d + 2) % 3; e.b[d] = e.n[l] * e.t[m] - e.n[m] * e.t[l]; }
    }
    // in the gap, at s along the axis and (x, y) across
    bool gap(vecd<D> const &q, double &s, double &x, double &y) const
    {
        double d1 = 0, d2 = 0;
        vecd<D> t;
        for (int d = 0; d < D; ++d) { d1 += sq(q[d] - c1[d]); d2 += sq(q[d] - c2[d]); t[d] = q[d] - o[d]; }
        if (d1 <= r1 * r1 || d2 <= r2 * r2) return false;
        s = dot<D>(e.n, t); x = dot<D>(e.t, t); y = D == 3 ? dot<D>(e.b, t) : 0.;
        return x * x + y * y <= cut * cut && s >= -r1 && s <= a + r2;
    }
};
template<int D> scene<D> make_scene(int k);
template<> scene<2> make_scene<2>(int k)
{
    scene<2> s;
    if (k < 7) s.two({{.3, .35}}, k, .5, .4, .01, 1);
    if (k == 7) { s.add({{-.2, .3}}, .5, 1); s.add({{.71, .3}}, .4, 1); s.add({{.355, 1.084}}, .45, 1); }
    if (k == 8) { s.add({{-.7, .3}}, .5, 1); s.add({{1.4, .3}}, .4, 1); } // far apart
    if (k == 9) s.add({{-.2, .3}}, .5, 1);
    return s; // 10: none
}
template<> scene<3> make_scene<3>(int k)
{
    scene<3> s;
    if (k >= 20) s.two({{.1, .13, .08}}, k - 13, .5, .4, .01, 1); // octants
    else if (k < 7) s.two({{.1, .13, .08}}, k, .5, .4, .01, sx_cfg("slide", 0));
    if (k == 8) { s.add({{-.7, .3, 0.}}, .5, 1); s.add({{1.4, .3, 0.}}, .4, 1); }
    if (k == 9) s.add({{-.2, .3, 0.}}, .5, 1);
    return s;
}
template<int D> vecd<D> mesh_step();
template<> vecd<2> mesh_step<2>() { return {{.125, sx_cfg("square", 0) ? .125 : .11}}; }
template<> vecd<3> mesh_step<3>() { return {{.125, .13, .12}}; }
// equal up to rounding: both are linear in velocities bounded by one
static void close_to(double a, double b, double scale, const char *l, int t)
{
    double tol = 1e-9 * scale;
    sx_assert_le(a - b, tol, l, t);
    sx_assert_le(b - a, tol, l, t);
}
// the box contains the gap
template<int D> void gapbox()
{
    sx_numeric(2);
    auto sc = make_scene<D>(sx_cfg("scene", 0));
    auto h = mesh_step<D>();
    for (int d = 0; d < D; ++d) h[d] /= sx_cfg("fine", 1);
    couple<D> k(sc, 0, 1, h[0]);
    sg::singularity<typename ball<D>::type, D> s(sc.p[0], sc.p[1], h[0]);
    auto b = s.get_box(h);
    double z = sx_real("z", 0, 0, 0), x = sx_real("x", 0, 0, 0), y = D == 3 ? sx_real("y", 0, 0, 0) : 0.;
    double t2 = x * x + y * y;
    sx_assume(t2 <= k.cut * k.cut);
    if (int rim = sx_cfg("rim", 0)) // only the disc that ends the gap on one of the particles
        z = rim == 1 ? std::sqrt(k.r1 * k.r1 - k.cut * k.cut) - k.r1 : k.a + k.r2 - std::sqrt(k.r2 * k.r2 - k.cut * k.cut);
    else
    {
    sx_assume(-k.r1 <= z); sx_assume(z <= k.a + k.r2);
    sx_assume(t2 + sq(z + k.r1) >= k.r1 * k.r1);
    sx_assume(t2 + sq(z - k.a - k.r2) >= k.r2 * k.r2);
    }
    for (int d = 0; d < D; ++d)
    {
        double q = k.o[d] + z * k.e.n[d] + x * k.e.t[d] + y * k.e.b[d];
        sx_assert_le(b.bottom_left[d] * h[d], q + 1e-9, "box", d);
        sx_assert_le(q - 1e-9, b.upper_right[d] * h[d], "box", 10 + d);
    }
}
template<int D> struct mock
{
    struct { problem::context<D> *ctx; Vec rhs; } problem;
    std::vector<part<D>> particles;
};
// the velocity of the composite vector receives the singular one
template<int D> PetscErrorCode add_last(mock<D> &c, Vec x) { return sg::add_singularity_to_last_sol<D>(c, x); }
PetscErrorCode add_last(mock<3> &, Vec) { return (PetscErrorCode)0; }
template<int D> void assembly_rank()
{
    int last = sx_cfg("last", 0);
    fx::ivec<D> m, per;
    int np = sx_cfg("n", D == 2 ? 4 : 2);
    std::array<PetscBool, D> pb;
    for (int d = 0; d < D; ++d) { m[d] = np; per[d] = 0; pb[d] = PETSC_FALSE; }
    auto h = mesh_step<D>();
    DM dm;
    fem::createMesh<D>(dm, m, pb);
    Vec x;
    DMCreateGlobalVector(dm, &x);
    PetscErrorCode (*method)(petsc::petsc_vec<D> &, petsc::petsc_vec<D> &, std::array<double, D> const &) = fem::laplacian_mult;
    mock<D> c;
    c.problem.ctx = new problem::context<D>{dm, h, method};
    c.problem.rhs = x;
    auto sc = make_scene<D>(sx_cfg("scene", 0));
    c.particles = sc.p;
    auto gv = fx::velocity_grid<D>(m, per);
    auto gp = fx::pressure_grid<D>(m, per);
    fx::fill<D>(dm, x, 0, "u", D);
    fx::fill<D>(dm, x, 1, "p", 1);
    // what every node should receive
    std::vector<double> add(gv.size() * D, 0.);
    const int N = 10;
    double area = 1.;
    for (int d = 0; d < D; ++d) area *= h[d] / N;
    int te = 1, ts = 1;
    for (int d = 0; d < D; ++d) { te *= gv.n[d] - 1; ts *= N; }
    for (std::size_t i = 0; i < sc.p.size(); ++i) for (std::size_t j = i + 1; j < sc.p.size(); ++j)
    {
        couple<D> k(sc, i, j, h[0]);
        if (!k.close) continue;
        for (int l = 0; l < te; ++l)
        {
            fx::ivec<D> e;
            int t = l;
            for (int d = 0; d < D; ++d) { e[d] = t % (gv.n[d] - 1); t /= gv.n[d] - 1; }
            for (int q = 0; q < ts; ++q)
            {
                vecd<D> pos, lo;
                t = q;
                for (int d = 0; d < D; ++d) { lo[d] = double(t % N) / N; t /= N; pos[d] = (e[d] + lo[d]) * h[d]; }
                double s, xx, yy;
                if (!k.gap(pos, s, xx, yy)) continue;
                auto v = oracle(k.f, k.e, s, xx, yy);
                for (int a = 0; a < (1 << D); ++a)
                {
                    auto nd = fx::add<D>(e, fx::corner<D>(a));
                    double phi = 1., g[D];
                    for (int d = 0; d < D; ++d) phi *= fx::bit<D>(a, d) ? lo[d] : 1. - lo[d];
                    for (int d = 0; d < D; ++d)
                    {
                        g[d] = (fx::bit<D>(a, d) ? 1. : -1.) / h[d];
                        for (int d2 = 0; d2 < D; ++d2) if (d2 != d) g[d] *= fx::bit<D>(a, d2) ? lo[d2] : 1. - lo[d2];
                    }
                    for (int d1 = 0; d1 < D; ++d1)
                    {
                        double &w = add[gv.lin(nd) * D + d1];
                        if (last) w += phi * v.u[d1] / ts;
                        else
                        {
                            for (int d2 = 0; d2 < D; ++d2) w -= area * v.g[d1][d2] * g[d2];
                            w += area * v.p * g[d1];
                        }
                    }
                }
            }
        }
    }
    PetscErrorCode r = last ? add_last(c, x) : sg::add_singularity_in_fluid<D>(c);
    sx_assert_eqi(r, 0, "status", 0);
    fx::each_owned<D>(dm, x, 0, [&](const fx::ivec<D> &p, double *u) {
        int l = gv.lin(p);
        for (int d = 0; d < D; ++d) close_to(u[d] - fx::sym("u", l, d), add[l * D + d], 100., last ? "added-velocity" : "right-hand-side", l * D + d);
    });
    fx::each_owned<D>(dm, x, 1, [&](const fx::ivec<D> &p, double *u) { sx_assert_eq(u[0], fx::sym("p", gp.lin(p), 0), "pressure-untouched", gp.lin(p)); });
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-errors", 0);
}
// part 7: forces
template<int D> void forces()
{
    sx_numeric(2);
    const int N = sx_cfg("N", 3);
    auto sc = make_scene<D>(sx_cfg("scene", 0));
    auto h = mesh_step<D>();
    int n = sc.p.size();
    std::vector<vecd<D>> want(n);
    double pi = std::acos(-1.);
    for (auto &w : want) for (int d = 0; d < D; ++d) w[d] = 0.;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j)
    {
        couple<D> k(sc, i, j, h[0]);
        if (!k.close) continue;
        for (int side = 0; side < 2; ++side)
        {
            double R = side ? k.r2 : k.r1, th = std::asin(k.cut / R);
            // the cap around the axis, by its angle from it and around it
            for (int a = D == 2 ? -N : 1; a < (D == 2 ? N : N + 1); ++a)
                for (int b = 1; b <= (D == 2 ? 1 : N); ++b)
                {
                    double t = a * th / N, ph = D == 2 ? 0. : 2 * pi * b / N;
                    double st = std::sin(t), ct = std::cos(t);
                    double x = R * st * (D == 2 ? 1. : std::cos(ph)), y = D == 2 ? 0. : R * st * std::sin(ph);
                    double s = side ? k.a + R * (1 - ct) : -R * (1 - ct);
                    double area = D == 2 ? R * th / N : R * R * st * th / N * 2 * pi / N;
                    auto v = oracle(k.f, k.e, s, x, y);
                    vecd<D> nn;
                    for (int d = 0; d < D; ++d) nn[d] = (side ? -ct : ct) * k.e.n[d] + x / R * k.e.t[d] + y / R * k.e.b[d];
                    for (int d1 = 0; d1 < D; ++d1)
                    {
                        double f = -v.p * nn[d1];
                        for (int d2 = 0; d2 < D; ++d2) f += (v.g[d1][d2] + v.g[d2][d1]) * nn[d2];
                        want[side ? j : i][d1] -= area * f;
                    }
                }
        }
    }
    std::vector<physics::force<D>> f(n);
    for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) f[i][d] = 7.;
    PetscErrorCode r;
    if (sx_cfg("ctx", 0))
    {
        mock<D> c;
        DM dm = NULL;
        PetscErrorCode (*method)(petsc::petsc_vec<D> &, petsc::petsc_vec<D> &, std::array<double, D> const &) = fem::laplacian_mult;
        c.problem.ctx = new problem::context<D>{dm, h, method};
        c.particles = sc.p;
        for (auto &p : c.particles) for (int d = 0; d < D; ++d) p.force_[d] = 7.;
        r = sg::compute_singular_forces<D>(c, N);
        for (int i = 0; i < n; ++i) f[i] = c.particles[i].force_;
    }
    else r = sg::compute_singular_forces(sc.p, f, h, N);
    sx_assert_eqi(r, 0, "status", 1);
    for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d)
    {
        sx_observe("force", 3 * i + d, f[i][d]);
        close_to(f[i][d], want[i][d], 1e4, "forces", 3 * i + d);
    }
    sx_reach(n ? "particles" : "none");
}
void sx_main()
{
    int part = sx_cfg("part", 0);
    opaque = sx_cfg("opaque", 0);
    if (part == 0) truncation();
    if (part == 1) planar();
    if (part == 2) axisymmetric();
    if (part == 3) beyond();
    int dim = sx_cfg("dim", 2);
    if (part == 4) dim == 2 ? frame<2>() : frame<3>();
    if (part == 5) dim == 2 ? gapbox<2>() : gapbox<3>();
    if (part == 6)
    {
        sx_numeric(2);
        sx_run_ranks(sx_cfg("np", 1), dim == 2 ? assembly_rank<2> : assembly_rank<3>);
    }
    if (part == 7) dim == 2 ? forces<2>() : forces<3>();
}
