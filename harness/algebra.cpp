// Vectors, positions, velocities, forces, cross products, quaternions, boxes,
// sampling of an interval and the Q1 shape functions: every identity for all
// values.
#include <cafes.hpp>
#include <particle/geometry/linspace.hpp>
#include <symx.h>
using namespace cafes;
using geometry::position;
using geometry::vector;
using physics::force;
using physics::velocity;

template<class V, int N> V mk(const char *n)
{
    V v;
    for (int i = 0; i < N; ++i) v[i] = sx_real(n, i, 0, 0);
    return v;
}
static bool trig = false; // values that go through sine and cosine are not predicted
static void eq(double a, double b, const char *l, int t)
{
    if (!trig) sx_observe(l, t, a);
    sx_assert_eq(a, b, l, t);
}

template<int N> void vectors()
{
    using Vv = vector<double, N>;
    using Pp = position<double, N>;
    using Uu = velocity<N>;
    using Ff = force<N>;
    auto a = mk<Vv, N>("a"), b = mk<Vv, N>("b");
    auto p = mk<Pp, N>("p"), q = mk<Pp, N>("q");
    auto u = mk<Uu, N>("u"), w = mk<Uu, N>("w");
    auto f = mk<Ff, N>("f"), g = mk<Ff, N>("g");
    double c = sx_real("c", 0, 0, 0), nz = sx_real("nz", 0, 0, 0);
    sx_assume(nz != 0);
    std::array<double, N> h, hp;
    for (int i = 0; i < N; ++i) { h[i] = sx_real("h", i, 0, 0); hp[i] = sx_real_pos("hp", i, 0, 0); }
    for (int i = 0; i < N; ++i)
    {
        { Vv t{a}; t += b; eq(t[i], a[i] + b[i], "vector-add-assign", i); }
        { Vv t{a}; t -= b; eq(t[i], a[i] - b[i], "vector-sub-assign", i); }
        { Vv t{a}; t *= b; eq(t[i], a[i] * b[i], "vector-mul-assign", i); }
        { Vv t{a}; t *= c; eq(t[i], a[i] * c, "vector-scale-assign", i); }
        { Vv t{a}; t /= nz; eq(t[i], a[i] / nz, "vector-div-assign", i); }
        { Vv t{a}; t += u; eq(t[i], a[i] + u[i], "vector-add-velocity", i); }
        eq((a + b)[i], a[i] + b[i], "vector-add", i);
        eq((-a)[i], -a[i], "vector-neg", i);
        eq((a * c)[i], a[i] * c, "vector-scale", i);
        eq((c * a)[i], a[i] * c, "vector-scale-left", i);
        eq((a / nz)[i], a[i] / nz, "vector-div", i);
        eq((a - u)[i], a[i] - u[i], "vector-sub-velocity", i);
        eq((u - a)[i], u[i] - a[i], "velocity-sub-vector", i);
        eq(Vv{u}[i], u[i], "vector-from-velocity", i);
        eq(Vv{p}[i], p[i], "vector-from-position", i);
        { Uu t{u}; t += w; eq(t[i], u[i] + w[i], "velocity-add-assign", i); }
        eq((u + w)[i], u[i] + w[i], "velocity-add", i);
        { Ff t{f}; t += g; eq(t[i], f[i] + g[i], "force-add-assign", i); }
        { Ff t{f}; t -= g; eq(t[i], f[i] - g[i], "force-sub-assign", i); }
        { Ff t{f}; t *= c; eq(t[i], f[i] * c, "force-scale-assign", i); }
        { Ff t{f}; t += c; eq(t[i], f[i] + c, "force-shift-assign", i); }
        eq((f + g)[i], f[i] + g[i], "force-add", i);
        eq((f - g)[i], f[i] - g[i], "force-sub", i);
        eq((f * c)[i], f[i] * c, "force-scale", i);
        eq((c * f)[i], f[i] * c, "force-scale-left", i);
        eq((f + c)[i], f[i] + c, "force-shift", i);
        eq((c + f)[i], f[i] + c, "force-shift-left", i);
        { Ff t{f}; t.fill(c); eq(t[i], c, "force-fill", i); }
        { Pp t{p}; t += q; eq(t[i], p[i] + q[i], "position-add-assign", i); }
        { Pp t{p}; t -= q; eq(t[i], p[i] - q[i], "position-sub-assign", i); }
        { Pp t{p}; t *= q; eq(t[i], p[i] * q[i], "position-mul-assign", i); }
        { Pp t{p}; t *= h; eq(t[i], p[i] * h[i], "position-scale-assign", i); }
        { Pp t{p}; t /= hp; eq(t[i], p[i] / hp[i], "position-div-assign", i); }
        { Pp t{p}; t /= nz; eq(t[i], p[i] / nz, "position-div-scalar-assign", i); }
        { Pp t{p}; t += u; eq(t[i], p[i] + u[i], "position-add-velocity-assign", i); }
        { Pp t{p}; t += c; eq(t[i], p[i] + c, "position-shift-assign", i); }
        { Pp t{p}; t -= c; eq(t[i], p[i] - c, "position-unshift-assign", i); }
        eq((p + q)[i], p[i] + q[i], "position-add", i);
        eq((p - q)[i], p[i] - q[i], "position-sub", i);
        eq((p + u)[i], p[i] + u[i], "position-add-velocity", i);
        eq((p + c)[i], p[i] + c, "position-shift", i);
        eq((p - c)[i], p[i] - c, "position-unshift", i);
        eq((p * h)[i], p[i] * h[i], "position-scale", i);
        eq((p / hp)[i], p[i] / hp[i], "position-div", i);
        eq((p / nz)[i], p[i] / nz, "position-div-scalar", i);
    }
    // rounding of positions
    for (int i = 0; i < N; ++i) sx_assume(p[i] > -1000 && p[i] < 1000);
    auto fl = geometry::floor(p);
    auto ce = geometry::ceil(p);
    position<int, N> tr(p);
    for (int i = 0; i < N; ++i)
    {
        sx_assert((double)fl[i] <= p[i] && p[i] < (double)fl[i] + 1, "position-floor", i);
        sx_assert((double)ce[i] >= p[i] && p[i] > (double)ce[i] - 1, "position-ceil", i);
        if (i == 0) sx_assert(p[i] < 0 || ((double)tr[i] <= p[i] && p[i] < (double)tr[i] + 1), "position-truncate", i);
    }
    sx_reach("vectors");
}

static void cross2()
{
    auto a = mk<vector<double, 2>, 2>("a"), b = mk<vector<double, 2>, 2>("b");
    double w = sx_real("w", 0, 0, 0);
    eq(geometry::cross_product(a, b), a[0] * b[1] - a[1] * b[0], "cross-2d", 0);
    eq(geometry::cross_product(a, b), -geometry::cross_product(b, a), "cross-2d-antisymmetric", 0);
    auto r = geometry::cross_product(w, a);
    auto s = geometry::cross_product(a, w);
    eq(r[0], -w * a[1], "cross-2d-scalar", 0);
    eq(r[1], w * a[0], "cross-2d-scalar", 1);
    for (int i = 0; i < 2; ++i) eq(s[i], -r[i], "cross-2d-scalar-antisymmetric", i);
    auto p = mk<position<double, 2>, 2>("p");
    eq(geometry::cross_product(p, b), p[0] * b[1] - p[1] * b[0], "cross-2d-mixed", 0);
}
static void cross3()
{
    auto a = mk<vector<double, 3>, 3>("a"), b = mk<vector<double, 3>, 3>("b");
    auto r = geometry::cross_product(a, b), s = geometry::cross_product(b, a);
    for (int i = 0; i < 3; ++i)
    {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        eq(r[i], a[j] * b[k] - a[k] * b[j], "cross-3d", i);
        eq(s[i], -r[i], "cross-3d-antisymmetric", i);
    }
    eq(r[0] * a[0] + r[1] * a[1] + r[2] * a[2], 0, "cross-3d-orthogonal", 0);
    sx_reach("cross");
}

// ------------------------------------------------------------------ boxes
template<class T> T val(const char *n, int i, std::true_type) { return sx_int(n, i, -50, 50); }
template<class T> T val(const char *n, int i, std::false_type) { return sx_real(n, i, 0, 0); }
template<class T, int N> geometry::box<T, N> mkbox(const char *n, const char *m, int empty_ok)
{
    geometry::box<T, N> b;
    for (int i = 0; i < N; ++i)
    {
        b.bottom_left[i] = val<T>(n, i, std::is_integral<T>{});
        b.upper_right[i] = val<T>(m, i, std::is_integral<T>{});
        sx_assume(b.bottom_left[i] <= b.upper_right[i]);
    }
    return b;
}
template<class T, int N> void boxes()
{
    auto a = mkbox<T, N>("al", "au", 0), b = mkbox<T, N>("bl", "bu", 0);
    position<T, N> x;
    for (int i = 0; i < N; ++i) x[i] = val<T>("x", i, std::is_integral<T>{});
    auto in = [&](geometry::box<T, N> const &c) { bool r = true; for (int i = 0; i < N; ++i) r = r & (c.bottom_left[i] <= x[i]) & (x[i] <= c.upper_right[i]); return r; };
    auto inh = [&](geometry::box<T, N> const &c) { bool r = true; for (int i = 0; i < N; ++i) r = r & (c.bottom_left[i] <= x[i]) & (x[i] < c.upper_right[i]); return r; };
    auto meets = [&]() { bool m = true; for (int i = 0; i < N; ++i) m = m & (a.bottom_left[i] <= b.upper_right[i]) & (b.bottom_left[i] <= a.upper_right[i]); return m; };
    switch (sx_cfg("what", 0))
    {
    case 0: sx_assert(geometry::point_inside(a, x) == inh(a), "box-point-inside", 0); break;
    case 1: sx_assert(geometry::intersect(a, b) == meets(), "box-intersect", 0); break;
    case 2: { auto o = geometry::overlap_box(a, b); sx_assert(in(o) == (in(a) & in(b)), "box-overlap", 0); break; }
    case 3:
    {
        auto u = geometry::union_box(a, b);
        sx_assert(!(in(a) | in(b)) | in(u), "box-union-contains", 0);
        for (int i = 0; i < N; ++i)
        {
            sx_assert((u.bottom_left[i] == a.bottom_left[i]) | (u.bottom_left[i] == b.bottom_left[i]), "box-union-tight", i);
            sx_assert((u.upper_right[i] == a.upper_right[i]) | (u.upper_right[i] == b.upper_right[i]), "box-union-tight", N + i);
        }
        break;
    }
    case 4:
    {
        auto n = geometry::box_inside(a, b);
        bool m = meets();
        sx_assert(!m | (inh(n) == (inh(a) & inh(b))), "box-inside", 0);
        // what is kept is never outside the first box
        for (int i = 0; i < N; ++i) sx_assert((a.bottom_left[i] <= n.bottom_left[i]) & (n.upper_right[i] <= a.upper_right[i]), "box-inside-first", i);
        break;
    }
    case 5:
    {
        double prod = 1;
        for (int i = 0; i < N; ++i)
        {
            eq(a.length(i), (double)(a.upper_right[i] - a.bottom_left[i]), "box-length", i);
            prod *= (double)(a.upper_right[i] - a.bottom_left[i]);
        }
        eq(a.length(), prod, "box-volume", 0);
        auto c = a.get_box_points();
        sx_assert_eqi(c.size(), 1 << N, "box-corner-count", 0);
        for (int k = 0; k < (1 << N); ++k)
            for (int i = 0; i < N; ++i) eq(c[k][i], (k >> i) & 1 ? a.upper_right[i] : a.bottom_left[i], "box-corners", k * N + i);
        break;
    }
    }
    sx_reach("boxes");
}
// touching test of two boxes: documented as "a part of b2 is inside b1"
template<class T, int N> void touching()
{
    auto a = mkbox<T, N>("al", "au", 0), b = mkbox<T, N>("bl", "bu", 0);
    bool meet = true;
    for (int i = 0; i < N; ++i) meet = meet & (a.bottom_left[i] <= b.upper_right[i]) & (b.bottom_left[i] <= a.upper_right[i]);
    sx_assert(geometry::check_box_inside(a, b) == meet, "box-part-inside", 0);
    sx_reach("touching");
}
// iterating visits each point of the box once, first direction fastest
template<int N> void iteration()
{
    geometry::box<int, N> b;
    int len[3] = {1, 1, 1}, tot = 1;
    for (int i = 0; i < N; ++i)
    {
        b.bottom_left[i] = sx_int("lo", i, -20, 20);
        len[i] = sx_choose("len", i, 0, 3);
        b.upper_right[i] = b.bottom_left[i] + len[i];
        tot *= len[i];
    }
    int n = 0;
    algorithm::iterate(b, [&](auto const &p) {
        int t = n;
        for (int i = 0; i < N; ++i) { sx_assert_eqi(p[i], b.bottom_left[i] + (len[i] ? t % len[i] : 0), "iterate-point", i); if (len[i]) t /= len[i]; }
        ++n;
    });
    sx_assert_eqi(n, tot, "iterate-count", 0);
    sx_reach("iteration");
}

// ------------------------------------------------------------------ linspace
static void spaced()
{
    int num = sx_choose("num", 0, 0, 6), inc = sx_choose("inc", 0, 0, 1);
    double a = sx_real("a", 0, 0, 0), b = sx_real("b", 0, 0, 0);
    sx_assume(a <= b);
    auto v = geometry::linspace(a, b, num, inc);
    sx_assert_eqi(v.size(), num, "linspace-count", num);
    if (num == 0) return;
    eq(v[0], a, "linspace-begin", num);
    if (inc && num > 1) eq(v[num - 1], b, "linspace-end", num);
    int parts = inc ? num - 1 : num;
    for (int i = 0; i < num; ++i)
    {
        sx_assert(a <= v[i] && v[i] <= b, "linspace-range", i);
        if (parts > 0) eq((v[i] - a) * parts, i * (b - a), "linspace-spacing", i);
    }
    if (num == 6) sx_reach("linspace");
}

// ------------------------------------------------------------------ shape functions
template<int N> void shapes()
{
    std::array<double, N> h;
    position<double, N> x, e;
    for (int i = 0; i < N; ++i) { h[i] = sx_real_pos("h", i, 0, 0); x[i] = sx_real("x", i, 0, 0); e[i] = sx_real("e", i, 0, 0); }
    auto f = fem::P1_integration(x, h);
    auto df = fem::P1_integration_grad(x, h);
    double sum = 0, vol = 1;
    for (int i = 0; i < N; ++i) vol *= h[i];
    for (int k = 0; k < (1 << N); ++k)
    {
        double w = 1;
        for (int i = 0; i < N; ++i) w *= (k >> i) & 1 ? x[i] / h[i] : 1 - x[i] / h[i];
        eq(f[k], w, "shape-value", k);
        sum += f[k];
        // at the nodes
        position<double, N> c;
        for (int i = 0; i < N; ++i) c[i] = (k >> i) & 1 ? h[i] : 0.;
        auto fc = fem::P1_integration(c, h);
        for (int j = 0; j < (1 << N); ++j) eq(fc[j], j == k, "shape-kronecker", k * (1 << N) + j);
        for (int d = 0; d < N; ++d)
        {
            double g = (k >> d) & 1 ? 1 : -1;
            for (int i = 0; i < N; ++i) if (i != d) g *= (k >> i) & 1 ? x[i] : h[i] - x[i];
            eq(df[k][d], g, "shape-gradient", k * N + d);
        }
    }
    eq(sum, 1, "shape-partition-of-unity", 0);
    // reproduces affine functions
    double c0 = sx_real("c", 0, 0, 0), ex = c0, ap = 0;
    double cf[3];
    for (int i = 0; i < N; ++i) { cf[i] = sx_real("c", i + 1, 0, 0); ex += cf[i] * x[i]; }
    for (int k = 0; k < (1 << N); ++k)
    {
        double nv = c0;
        for (int i = 0; i < N; ++i) if ((k >> i) & 1) nv += cf[i] * h[i];
        ap += f[k] * nv;
    }
    eq(ap, ex, "shape-affine", 0);
    // element connectivity
    position<int, N> p;
    for (int i = 0; i < N; ++i) p[i] = sx_int("p", i, -1000, 1000);
    auto el = fem::get_element(p);
    for (int k = 0; k < (1 << N); ++k) for (int i = 0; i < N; ++i) sx_assert_eqi(el[k][i], p[i] + ((k >> i) & 1), "element-nodes", k * N + i);
    auto e4 = fem::get_element_4Q1(p);
    int t3[3];
    for (int k = 0; k < (N == 2 ? 9 : 27); ++k)
    {
        int t = k;
        for (int i = 0; i < N; ++i) { sx_assert_eqi(e4[k][i], 2 * p[i] + t % 3, "element-fine-nodes", k * N + i); t /= 3; }
    }
    sx_reach("shapes");
}

// ------------------------------------------------------------------ quaternions
static void rotations()
{
    double t = sx_real("t", 0, 0, 0);
    vector<double, 3> ax = mk<vector<double, 3>, 3>("ax");
    sx_assume_eq(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2], 1.);
    geometry::quaternion q(t, ax);
    position<double, 3> p = mk<position<double, 3>, 3>("p");
    auto r = q.rotate(p);
    // linear
    auto p2 = mk<position<double, 3>, 3>("p2");
    double sc = sx_real("sc", 0, 0, 0);
    auto r2 = q.rotate(p2), rs = q.rotate(p * std::array<double, 3>{{sc, sc, sc}} + p2);
    for (int i = 0; i < 3; ++i) eq(rs[i], sc * r[i] + r2[i], "rotation-linear", i);
    // keeps the length, the axis and the orientation; inverted by the conjugate
    eq(r[0] * r[0] + r[1] * r[1] + r[2] * r[2], p[0] * p[0] + p[1] * p[1] + p[2] * p[2], "rotation-keeps-length", 0);
    position<double, 3> a{ax[0], ax[1], ax[2]};
    auto ra = q.rotate(a);
    for (int i = 0; i < 3; ++i) eq(ra[i], a[i], "rotation-keeps-axis", i);
    auto back = q.conj().rotate(r);
    for (int i = 0; i < 3; ++i) eq(back[i], p[i], "rotation-inverse", i);
    sx_reach("rotations");
}
static void rodrigues()
{
    double t = sx_real("t", 0, 0, 0);
    vector<double, 3> ax = mk<vector<double, 3>, 3>("ax");
    sx_assume_eq(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2], 1.);
    geometry::quaternion q(t, ax);
    double n = 0;
    for (int i = 0; i < 4; ++i) n += q.components_[i] * q.components_[i];
    eq(n, 1., "quaternion-unit", 0);
    for (int i = 0; i < 3; ++i) eq(q.components_[i], std::sin(t / 2) * ax[i], "quaternion-axis", i);
    eq(q.components_[3], std::cos(t / 2), "quaternion-angle", 0);
    position<double, 3> p{0., 0., 0.};
    p[sx_cfg("dir", 0)] = 1;
    auto r = q.rotate(p);
    double c = 1 - 2 * std::sin(t / 2) * std::sin(t / 2), s = 2 * std::sin(t / 2) * std::cos(t / 2);
    double dot = ax[0] * p[0] + ax[1] * p[1] + ax[2] * p[2];
    for (int i = 0; i < 3; ++i)
    {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        eq(r[i], c * p[i] + s * (ax[j] * p[k] - ax[k] * p[j]) + (1 - c) * dot * ax[i], "rotation-rodrigues", i);
    }
    sx_reach("rodrigues");
}
// any nonzero axis: the library normalises
static void scaled_axis()
{
    double t = sx_real("t", 0, 0, 0);
    vector<double, 3> ax = mk<vector<double, 3>, 3>("ax");
    sx_assume(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2] > 0.);
    geometry::quaternion q(t, ax);
    double n = 0;
    for (int i = 0; i < 4; ++i) n += q.components_[i] * q.components_[i];
    eq(n, 1., "quaternion-unit", 0);
    sx_reach("scaled-axis");
}
static void planar()
{
    double t = sx_real("t", 0, 0, 0);
    geometry::quaternion q(t);
    position<double, 2> p = mk<position<double, 2>, 2>("p");
    auto r = q.rotate(p);
    double c = 1 - 2 * std::sin(t / 2) * std::sin(t / 2), s = 2 * std::sin(t / 2) * std::cos(t / 2);
    eq(r[0], c * p[0] - s * p[1], "rotation-planar", 0);
    eq(r[1], s * p[0] + c * p[1], "rotation-planar", 1);
    auto back = q.conj().rotate(r);
    for (int i = 0; i < 2; ++i) eq(back[i], p[i], "rotation-planar-inverse", i);
    geometry::quaternion none{};
    for (int i = 0; i < 2; ++i) eq(none.rotate(p)[i], p[i], "rotation-none", i);
    sx_assert(!none.is_rotate(), "rotation-none-detected", 0);
    sx_reach("planar");
}
extern "C" void sx_main()
{
    trig = sx_cfg("part", 0) >= 13;
    switch (sx_cfg("part", 0))
    {
    case 0: vectors<2>(); cross2(); break;
    case 1: vectors<3>(); cross3(); break;
    case 2: boxes<int, 2>(); break;
    case 3: boxes<int, 3>(); break;
    case 4: boxes<double, 2>(); break;
    case 5: boxes<double, 3>(); break;
    case 6: touching<int, 2>(); break;
    case 7: touching<double, 3>(); break;
    case 8: iteration<2>(); break;
    case 9: iteration<3>(); break;
    case 10: spaced(); break;
    case 11: shapes<2>(); break;
    case 12: shapes<3>(); break;
    case 13: rotations(); break;
    case 14: rodrigues(); break;
    case 15: scaled_axis(); break;
    case 16: planar(); break;
    }
}
