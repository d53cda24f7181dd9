// C08/C22: circles, spheres and super-ellipsoids: inside, bounding boxes,
// measures, parametrisation, surface samples.
#include <fem.h>
using namespace cafes;
using geometry::position;
using geometry::quaternion;

static double sq(double x) { return x * x; }
static double absv(double x) { return x < 0 ? -x : x; }
template<int D> position<double, D> mkpos(const char *n) { position<double, D> p; for (int d = 0; d < D; ++d) p[d] = sx_real(n, d, 0, 0); return p; }
// rot 1: any unit quaternion (in the plane: about z); 2, 3, 4: any about one axis; 5...: one of a list of rationals
template<int D> quaternion mkq(int rot)
{
    static const int list[][5] = {{1, 2, 2, 4, 5}, {2, -4, 5, 6, 9}, {-2, 1, 8, 10, 13}, {6, -2, -3, 0, 7}, {4, 1, 0, -8, 9}};
    quaternion q{};
    if (!rot) return q;
    double n = 0;
    if (rot >= 5)
    {
        // 1/k, exactly
        double t = sx_real("q", 0, 0, 0);
        sx_assume_eq(t * list[rot - 5][4], 1.);
        for (int i = 0; i < 4; ++i) q.components_[i] = t * list[rot - 5][i];
        return q;
    }
    for (int i = 0; i < 4; ++i)
        if (i == 3 || (D == 2 ? i == 2 : rot == 1 || i == rot - 2)) { q.components_[i] = sx_real("q", i, 0, 0); n += sq(q.components_[i]); }
    sx_assume_eq(n, 1.);
    return q;
}
// columns: images of the axes
template<int D> void rotation(quaternion const &q, double (*R)[3], int rot)
{
    double x = q.components_[0], y = q.components_[1], z = q.components_[2], w = q.components_[3];
    if (!rot) { x = y = z = 0; w = 1; }
    double M[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)},
                      {2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)},
                      {2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i][j] = M[i][j];
}
template<int D> position<double, D> to_body(position<double, D> const &p, position<double, D> const &c, double (*R)[3])
{
    position<double, D> b;
    for (int i = 0; i < D; ++i) { b[i] = 0; for (int j = 0; j < D; ++j) b[i] += R[j][i] * (p[j] - c[j]); }
    return b;
}
static double ipow(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }

// the bounding box holds every point of the shape; (mesh) every mesh point and surface cell
template<int D, class S> void bounding(S const &s, position<double, D> const &c, std::array<double, D> const &f, double (*R)[3], int rot)
{
    auto b = s.bounding_box();
    // a body point within the factors covers the shape and its surface
    position<double, D> body = mkpos<D>("body"), p;
    for (int d = 0; d < D; ++d) { sx_assume(body[d] <= f[d]); sx_assume(-f[d] <= body[d]); }
    for (int i = 0; i < D; ++i) { p[i] = c[i]; for (int j = 0; j < D; ++j) p[i] += R[i][j] * body[j]; }
    for (int d = 0; d < D; ++d)
    {
        sx_assert_le(b.bottom_left[d], p[d], "bounding-box-holds-shape", d);
        sx_assert_le(p[d], b.upper_right[d], "bounding-box-holds-shape", 10 + d);
        if (!rot)
        {
            sx_assert_eq(b.bottom_left[d], c[d] - f[d], "bounding-box-tight", d);
            sx_assert_eq(b.upper_right[d], c[d] + f[d], "bounding-box-tight", 10 + d);
        }
    }
}
template<int D, class S> void mesh_box(S const &s)
{
    std::array<double, D> h;
    for (int d = 0; d < D; ++d) { h[d] = sx_cfg("hstep", 0) ? .125 * (d + 1) : sx_real_pos("h", d, 0, 0); }
    auto b = s.bounding_box();
    // what the library does with the box stays within int for |x / h| < 10^6
    for (int d = 0; d < D; ++d) { sx_assume(b.bottom_left[d] > -1e6 * h[d]); sx_assume(b.upper_right[d] < 1e6 * h[d]); sx_assume(b.bottom_left[d] <= b.upper_right[d]); }
    auto m = s.bounding_box(h);
    for (int d = 0; d < D; ++d)
    {
        int i = sx_int("i", d, -1000000, 1000000), j = sx_int("j", d, -1000000, 1000000);
        // mesh point i is within the box
        sx_assume(i * h[d] >= b.bottom_left[d]);
        sx_assume(i * h[d] <= b.upper_right[d]);
        sx_assert(m.bottom_left[d] <= i, "mesh-box-holds-points", d);
        sx_assert(i < m.upper_right[d], "mesh-box-holds-points", 10 + d);
        // cell j meets the box
        sx_assume(j * h[d] <= b.upper_right[d]);
        sx_assume(b.bottom_left[d] < (j + 1) * h[d]);
        sx_assert((m.bottom_left[d] <= j), "mesh-box-holds-cells", d);
        sx_assert((j < m.upper_right[d]), "mesh-box-holds-cells", 10 + d);
    }
}
template<int D> struct round_shape;
template<> struct round_shape<2> { typedef geometry::circle<> type; static type make(position<double, 2> const &c, double r, quaternion q) { return make_circle(c, r, q); } };
template<> struct round_shape<3> { typedef geometry::sphere<> type; static type make(position<double, 3> const &c, double r, quaternion q) { return make_sphere(c, r, q); } };
template<int D> void roundness()
{
    int rot = sx_cfg("rot", 0);
    auto c = mkpos<D>("c");
    double r = sx_real_pos("r", 0, 0, 0);
    auto q = mkq<D>(rot);
    auto s = round_shape<D>::make(c, r, q);
    auto p = mkpos<D>("p");
    double d2 = 0;
    for (int d = 0; d < D; ++d) d2 += sq(p[d] - c[d]);
    if (!rot) { bool in = s.contains(p); sx_assert(in == (d2 < r * r), "inside", 0); sx_assert_eq(s.implicit(p), d2 / (r * r), "implicit", 0); }
    else
    {
        double R[3][3];
        rotation<D>(q, R, rot);
        auto b = to_body<D>(p, c, R);
        double e = 0;
        for (int d = 0; d < D; ++d) e += sq(b[d]);
        // the length does not change: the same body point set
        sx_assert_eq(s.implicit(p), e / (r * r), "implicit", 1);
        if (D == 2) sx_assert_eq(e, d2, "rotation-keeps-round-shapes", 0);
    }
    sx_assert(s.contains(p) == (s.implicit(p) < 1.), "inside", 1);
    sx_assert_eq(s.surface_area(), D == 2 ? 2 * M_PI * r : 4 * M_PI * r * r, "surface-area", 0);
    sx_assert_eq(s.volume(), D == 2 ? M_PI * r * r : 4. * M_PI / 3. * r * r * r, "volume", 0);
    // inverse mean square distances to the axis: on the surface, and in the inside
    sx_assert_eq(s.Cd_R() * (D == 2 ? 1. : 2. / 3.) * r * r, 1., "surface-inertia", 0);
    sx_assert_eq(s.Ci_R() * (D == 2 ? 1. / 2. : 2. / 5.) * r * r, 1., "volume-inertia", 0);
    if (!rot) sx_assert(!s.q_.is_rotate(), "no-rotation", 0);
    sx_observe("implicit", 0, s.implicit(p));
    sx_reach("round");
}
template<int D> struct ell;
template<> struct ell<2> { static auto make(position<double, 2> const &c, std::array<double, 2> const &f, int n, int e, quaternion q) { return make_ellipsoid<2>(c, f, n, q); } };
template<> struct ell<3> { static auto make(position<double, 3> const &c, std::array<double, 3> const &f, int n, int e, quaternion q) { return make_ellipsoid<3>(c, f, n, e, q); } };
template<int D> double implicit_of(position<double, D> const &b, std::array<double, D> const &f, int n, int e)
{
    if (D == 2) return ipow(absv(b[0] / f[0]), n) + ipow(absv(b[1] / f[1]), n);
    double xy = ipow(absv(b[0] / f[0]), e) + ipow(absv(b[1] / f[1]), e);
    double v = n == e ? xy : n == 2 * e ? xy * xy : std::sqrt(xy);
    return v + ipow(absv(b[D - 1] / f[D - 1]), n);
}
template<int D> void ellipsoid()
{
    int rot = sx_cfg("rot", 0), n = sx_cfg("n", 2), e = sx_cfg("e", 2);
    auto c = mkpos<D>("c");
    std::array<double, D> f;
    for (int d = 0; d < D; ++d) f[d] = sx_real_pos("f", d, 0, 0);
    auto q = mkq<D>(rot);
    auto s = ell<D>::make(c, f, n, e, q);
    double R[3][3];
    rotation<D>(q, R, rot);
    auto p = mkpos<D>("p");
    auto b = to_body<D>(p, c, R);
    double v = implicit_of<D>(b, f, n, e);
    sx_assert_eq(s.implicit(p), v, "implicit", 2);
    sx_assert(s.contains(p) == (s.implicit(p) < 1.), "inside", 2);
    sx_observe("implicit", 0, s.implicit(p));
    sx_reach("ellipsoid");
}
// bounding boxes; axis-aligned or rotated
template<int D> void boxes()
{
    int rot = sx_cfg("rot", 0);
    auto c = mkpos<D>("c");
    std::array<double, D> f;
    for (int d = 0; d < D; ++d) f[d] = sx_real_pos("f", d, 0, 0);
    auto q = mkq<D>(rot);
    double R[3][3];
    rotation<D>(q, R, rot);
    bounding<D>(ell<D>::make(c, f, 2, 2, q), c, f, R, rot);
    sx_reach("boxes");
}
template<int D> void mesh_boxes()
{
    auto c = mkpos<D>("c");
    std::array<double, D> f;
    for (int d = 0; d < D; ++d) f[d] = sx_real_pos("f", d, 0, 0);
    mesh_box<D>(ell<D>::make(c, f, 2, 2, quaternion{}));
    sx_reach("boxes");
}
static void parametric2()
{
    int n = sx_cfg("n", 2);
    auto c = mkpos<2>("c");
    std::array<double, 2> f{{sx_real_pos("f", 0, 0, 0), sx_real_pos("f", 1, 0, 0)}};
    auto s = make_ellipsoid<2>(c, f, n, quaternion{});
    double u = sx_real("u", 0, 0, 0);
    auto p = s.at(u), r = s.radial(u);
    for (int d = 0; d < 2; ++d) sx_assert_eq(p[d] - c[d], r[d], "radial-vector", d);
    double co = std::cos(u), si = std::sin(u);
    // |x/a|^(n/2) = |cos u| with the sign of cos u
    double ax = absv(r[0] / f[0]), ay = absv(r[1] / f[1]);
    if (n == 2) { sx_assert_eq(r[0], f[0] * co, "parametric", 0); sx_assert_eq(r[1], f[1] * si, "parametric", 1); }
    if (n == 4) { sx_assert_eq(ax * ax, absv(co), "parametric", 0); sx_assert_eq(ay * ay, absv(si), "parametric", 1); }
    if (n == 1) { sx_assert_eq(ax, co * co, "parametric", 0); sx_assert_eq(ay, si * si, "parametric", 1); }
    sx_assert((r[0] >= 0) == (co >= 0) || r[0] == 0, "parametric-sign", 0);
    sx_assert((r[1] >= 0) == (si >= 0) || r[1] == 0, "parametric-sign", 1);
    auto vp = s.surface(std::vector<double>{u, u + 1});
    auto vr = s.radial_vector(std::vector<double>{u, u + 1});
    sx_assert_eqi(vp.size(), 2, "parametric", 8);
    auto p2 = s.at(u + 1);
    for (int d = 0; d < 2; ++d)
    {
        sx_assert_eq(vp[0][d], p[d], "parametric", 10 + d);
        sx_assert_eq(vr[0][d], r[d], "radial-vector", 10 + d);
        sx_assert_eq(vp[1][d], p2[d], "parametric", 20 + d);
    }
    sx_reach("parametric");
}
static void parametric3()
{
    int n = sx_cfg("n", 2), e = sx_cfg("e", 2);
    auto c = mkpos<3>("c");
    std::array<double, 3> f{{sx_real_pos("f", 0, 0, 0), sx_real_pos("f", 1, 0, 0), sx_real_pos("f", 2, 0, 0)}};
    auto s = make_ellipsoid<3>(c, f, n, e, quaternion{});
    double u = sx_real("u", 0, 0, 0), v = sx_real("v", 0, 0, 0);
    auto p = s.at(u, v), r = s.radial(u, v);
    for (int d = 0; d < 3; ++d) sx_assert_eq(p[d] - c[d], r[d], "radial-vector", d);
    if (n == 2 && e == 2)
    {
        sx_assert_eq(r[0], f[0] * std::cos(u) * std::cos(v), "parametric", 0);
        sx_assert_eq(r[1], f[1] * std::sin(u) * std::cos(v), "parametric", 1);
        sx_assert_eq(r[2], f[2] * std::sin(v), "parametric", 2);
    }
    if (n == 4 && e == 2)
    {
        sx_assert_eq(sq(r[0]), sq(f[0] * std::cos(u)) * absv(std::cos(v)), "parametric", 3);
        sx_assert_eq(sq(r[2]), sq(f[2]) * absv(std::sin(v)), "parametric", 4);
    }
    if (n == 2 && e == 4)
    {
        sx_assert_eq(sq(r[0]), sq(f[0] * std::cos(v)) * absv(std::cos(u)), "parametric", 5);
        sx_assert_eq(r[2], f[2] * std::sin(v), "parametric", 6);
    }
    sx_reach("parametric");
}
// C22: samples of the surface; the step is one of a list, everything else is symbolic
static double step_of(int k) { static const double v[] = {.9, .6, .4, .3, .21, .785398, 1.2, .13}; return v[k]; }
static void samples2()
{
    sx_numeric(1);
    int n = sx_cfg("n", 2), rot = sx_cfg("rot", 0);
    double k = step_of(sx_cfg("k", 0));
    auto c = mkpos<2>("c");
    std::array<double, 2> f{{sx_real_pos("f", 0, 0, 0), sx_real_pos("f", 1, 0, 0)}};
    auto q = mkq<2>(rot);
    auto s = make_ellipsoid<2>(c, f, n, q);
    auto b = make_ellipsoid<2>(position<double, 2>{0., 0.}, f, n, quaternion{});
    auto v = s.surface(k), w = b.surface(k);
    double R[3][3];
    rotation<2>(q, R, rot);
    sx_assert_eqi(v.size(), w.size(), "sample-count", 0);
    int N = w.size();
    sx_assert(N >= 4 && N % 4 == 0, "sample-count", 1);
    for (int i = 0; i < N; i += 3) { sx_observe("sx", i, v[i][0]); sx_observe("sy", i, v[i][1]); }
    if (n == 2) sx_assert(N * k >= 2 * M_PI - 8 * k, "sample-count", 2);
    if (n == 2) sx_assert(N * k <= 2 * M_PI + 8 * k + 8, "sample-count", 3);
    auto X = [&](int i) { return w[i % N][0] / f[0]; };
    auto Y = [&](int i) { return w[i % N][1] / f[1]; };
    for (int i = 0; i < N; ++i)
    {
        double im = ipow(absv(X(i)), n) + ipow(absv(Y(i)), n);
        sx_assert_le(absv(im - 1), 1e-9, "sample-on-surface", i);
        for (int d = 0; d < 2; ++d) sx_assert_eq(v[i][d], c[d] + R[d][0] * w[i][0] + R[d][1] * w[i][1], "sample-placed", 2 * i + d);
        // counter-clockwise, once around, no sample twice
        double cr = X(i) * Y(i + 1) - Y(i) * X(i + 1);
        sx_assert(cr > 0, "sample-order", i);
        // on a circle no gap is wider than twice the step
        if (n == 2) sx_assert_le(sq(X(i) - X(i + 1)) + sq(Y(i) - Y(i + 1)), sq(2 * k) * (1 + 1e-6) + 2e-4, "sample-spacing", i);
        // mirror images are samples too
        bool mx = false, my = false;
        for (int j = 0; j < N; ++j)
        {
            if (absv(X(j) + X(i)) < 1e-9 && absv(Y(j) - Y(i)) < 1e-9) mx = true;
            if (absv(X(j) - X(i)) < 1e-9 && absv(Y(j) + Y(i)) < 1e-9) my = true;
        }
        sx_assert(mx, "sample-symmetry", i);
        sx_assert(my, "sample-symmetry", 1000 + i);
    }
    sx_reach("samples");
}
static void samples3()
{
    sx_numeric(1);
    int n = sx_cfg("n", 2), e = sx_cfg("e", 2), rot = sx_cfg("rot", 0);
    double k = step_of(sx_cfg("k", 0)), k2 = step_of(sx_cfg("k2", 0));
    auto c = mkpos<3>("c");
    std::array<double, 3> f{{sx_real_pos("f", 0, 0, 0), sx_real_pos("f", 1, 0, 0), sx_real_pos("f", 2, 0, 0)}};
    auto q = mkq<3>(rot);
    auto s = make_ellipsoid<3>(c, f, n, e, q);
    auto b = make_ellipsoid<3>(position<double, 3>{0., 0., 0.}, f, n, e, quaternion{});
    std::array<double, 2> st{{k, k2}};
    auto v = s.surface(st), w = b.surface(st);
    double R[3][3];
    rotation<3>(q, R, rot);
    int N = w.size();
    sx_assert_eqi(v.size(), N, "sample-count", 0);
    sx_assert(N >= 8 && N % 2 == 0, "sample-count", 1);
    for (int i = 0; i < N; i += 7) { sx_observe("sx", i, v[i][0]); sx_observe("sz", i, v[i][2]); }
    for (int i = 0; i < N; ++i)
    {
        double xy = ipow(absv(w[i][0] / f[0]), e) + ipow(absv(w[i][1] / f[1]), e), z = ipow(absv(w[i][2] / f[2]), n);
        // xy^(n/e) = 1 - z
        double l = n == e ? xy : n == 2 * e ? xy * xy : xy, r = n == e ? 1 - z : n == 2 * e ? 1 - z : sq(1 - z);
        sx_assert_le(absv(l - r), 1e-9, "sample-on-surface", i);
        for (int d = 0; d < 3; ++d) sx_assert_eq(v[i][d], c[d] + R[d][0] * w[i][0] + R[d][1] * w[i][1] + R[d][2] * w[i][2], "sample-placed", 3 * i + d);
        bool m[3] = {false, false, false};
        for (int j = 0; j < N; ++j)
            for (int a = 0; a < 3; ++a)
            {
                double dist = 0;
                for (int d = 0; d < 3; ++d) { double t = (d == a ? w[j][d] + w[i][d] : w[j][d] - w[i][d]) / f[d]; dist += t < 0 ? -t : t; }
                if (dist < 1e-9) m[a] = true;
            }
        for (int a = 0; a < 3; ++a) sx_assert(m[a], "sample-symmetry", 3 * i + a);
    }
    // no hole: near every point of an ellipsoid is a sample; the rings are as close as the second step asks, their points as the first
    if (n == 2 && e == 2)
    {
        for (int i = 0; i < 9; ++i)
            for (int j = 0; j < 16; ++j)
            {
                double u = M_PI * (i - 4) / 8., g = M_PI * j / 8., t[3] = {std::cos(u) * std::cos(g), std::cos(u) * std::sin(g), std::sin(u)};
                double r = 2 * (i == 4 || k > k2 ? k : k2), best = 8;
                for (int l = 0; l < N; ++l)
                {
                    double q = 0;
                    for (int d = 0; d < 3; ++d) q += sq(w[l][d] / f[d] - t[d]);
                    if (q < best) best = q;
                }
                sx_assert_le(best, r * r, "sample-spacing", 16 * i + j);
            }
        std::vector<double> rad;
        for (int l = 0; l < N; ++l) rad.push_back(std::sqrt(sq(w[l][0] / f[0]) + sq(w[l][1] / f[1])));
        for (int i = 0; i < 65; ++i)
        {
            double u = M_PI * (i - 32) / 64., ring = 8;
            for (int l = 0; l < N; ++l)
            {
                double q = sq(rad[l] - std::cos(u)) + sq(w[l][2] / f[2] - std::sin(u));
                if (q < ring) ring = q;
            }
            sx_assert_le(ring, sq(k2), "sample-spacing", 1000 + i); // half a gap
        }
    }
    sx_reach("samples");
}
// any step: on the surface, mirror images (the number of samples forks the path)
static void samples_any()
{
    double lo = .01 * sx_cfg("lo", 60), hi = .01 * sx_cfg("hi", 160);
    auto c = mkpos<2>("c");
    std::array<double, 2> f{{sx_real_pos("f", 0, 0, 0), sx_real_pos("f", 1, 0, 0)}};
    auto s = make_ellipsoid<2>(c, f, 2, quaternion{});
    double k = sx_real_pos("k", 0, 0, 0);
    sx_assume(k >= lo); sx_assume(k <= hi);
    auto v = s.surface(k);
    int N = v.size();
    sx_assert(N >= 4 && N % 4 == 0, "sample-count", 1);
    for (int i = 0; i < N; ++i)
    {
        sx_assert_eq(sq((v[i][0] - c[0]) / f[0]) + sq((v[i][1] - c[1]) / f[1]), 1., "sample-on-surface", i);
        int o = (i + N / 2) % N;
        for (int d = 0; d < 2; ++d) sx_assert_eq(v[i][d] - c[d], c[d] - v[o][d], "sample-symmetry", 2 * i + d);
    }
    sx_reach("samples");
}
// a shape given by one bit per grid point of a box
template<int D> struct bits
{
    typedef std::integral_constant<std::size_t, D> dimension_type;
    position<double, D> center_;
    std::array<double, D> shape_factors_;
    std::array<double, D> h;
    std::array<int, D> lo, n;
    mutable int stray = 0;
    int bit(std::array<int, D> const &i) const { int l = 0; for (int d = D - 1; d >= 0; --d) l = l * n[d] + i[d]; return sx_choose("in", l, 0, 1); }
    bool contains(position<double, D> const &p) const
    {
        std::array<int, D> i;
        for (int d = 0; d < D; ++d)
        {
            i[d] = -1;
            for (int k = 0; k < n[d]; ++k) if (sx_symbolic() ? p[d] == (lo[d] + k) * h[d] : std::fabs(p[d] / h[d] - lo[d] - k) < 1e-6) i[d] = k;
            if (i[d] < 0) { ++stray; return false; }
        }
        return bit(i);
    }
    void surface() const {}
    void bounding_box() const {}
    double surface_area() const { return 1; }
    double volume() const { return 1; }
    double Cd_R() const { return 1; }
    double Ci_R() const { return 1; }
};
template<int D> void fluid_points()
{
    bits<D> s;
    geometry::box<int, D> b;
    for (int d = 0; d < D; ++d)
    {
        s.h[d] = sx_real_pos("h", d, 0, 0);
        s.n[d] = D == 2 ? 3 - d : 2;
        s.lo[d] = sx_cfg("lo", 0) + d;
        b.bottom_left[d] = s.lo[d];
        b.upper_right[d] = s.lo[d] + s.n[d];
        s.center_[d] = 0; s.shape_factors_[d] = 1;
    }
    particle<bits<D>> p(s, physics::force<D>(), 1.);
    auto v = find_fluid_points_insides(p, b, s.h);
    int tot = 1, want = 0;
    for (int d = 0; d < D; ++d) tot *= s.n[d];
    for (int l = 0; l < tot; ++l)
    {
        std::array<int, D> i;
        int t = l, seen = 0;
        for (int d = 0; d < D; ++d) { i[d] = t % s.n[d]; t /= s.n[d]; }
        for (auto &q : v)
        {
            bool same = true;
            for (int d = 0; d < D; ++d) same = same && q[d] == i[d] + s.lo[d];
            seen += same;
        }
        int in = s.bit(i);
        want += in;
        sx_assert_eqi(seen, in, "fluid-points-inside", l);
    }
    sx_assert_eqi(v.size(), want, "fluid-points-inside", 100);
    sx_reach("fluid-points");
}
template<int D> void surface_points()
{
    std::array<double, D> h;
    geometry::box<int, D> b;
    for (int d = 0; d < D; ++d)
    {
        h[d] = sx_real_pos("h", d, 0, 0);
        b.bottom_left[d] = sx_int("lo", d, -1000, 1000);
        b.upper_right[d] = sx_int("hi", d, -1000, 1000);
        sx_assume(b.bottom_left[d] < b.upper_right[d]);
    }
    auto c = mkpos<D>("c");
    int N = sx_cfg("n", 1), k = 0;
    std::vector<position<double, D>> s(N);
    for (int i = 0; i < N; ++i) for (int d = 0; d < D; ++d)
    {
        s[i][d] = sx_real("s", i, d, 0);
        sx_assume(s[i][d] < 100000 * h[d]);
        sx_assume(-100000 * h[d] < s[i][d]);
    }
    auto v = find_surf_points_insides(s, b, h);
    auto r = find_radial_surf_points_insides(s, b, h, c);
    sx_assert_eqi(r.size(), v.size(), "surface-points-kept", 0);
    for (int i = 0; i < N; ++i)
    {
        bool in = true;
        for (int d = 0; d < D; ++d) in = in && s[i][d] >= b.bottom_left[d] * h[d] && s[i][d] < b.upper_right[d] * h[d];
        if (!in) continue;
        sx_assert((int)v.size() > k, "surface-points-kept", 1 + i);
        if ((int)v.size() <= k) break;
        for (int d = 0; d < D; ++d)
        {
            double x = v[k].first[d] * h[d] + v[k].second[d];
            sx_assert_eq(x, s[i][d], "surface-points-placed", i * D + d);
            sx_assert_le(0., v[k].second[d], "surface-points-placed", 10 + i * D + d);
            sx_assert(v[k].second[d] < h[d], "surface-points-placed", 20 + i * D + d);
            sx_assert_eq(r[k][d], s[i][d] - c[d], "surface-radius", i * D + d);
        }
        ++k;
    }
    sx_observe("kept", 0, v.size());
    sx_assert_eqi(v.size(), k, "surface-points-kept", 50);
    sx_reach("surface-points");
}
// (does not compile in space: its last argument is not what a particle takes)
template<class S> void with_velocity(S const &s, physics::velocity<2> const &v, std::integral_constant<int, 2>)
{
    double w = sx_real("w", 0, 0, 0);
    auto p = make_particle_with_velocity(s, v, w);
    for (int d = 0; d < 2; ++d)
    {
        sx_assert_eq(p.velocity_[d], v[d], "particle-data", 50 + d);
        sx_assert_eq(p.center_[d], s.center_[d], "particle-data", 60 + d);
        sx_assert_eq(p.force_[d], 0., "particle-data", 70 + d);
    }
    sx_assert_eq(p.angular_velocity_, w, "particle-data", 80);
}
template<class S, class V> void with_velocity(S const &, V const &, std::integral_constant<int, 3>) {}
template<int D> void particles()
{
    auto c1 = mkpos<D>("c1"), c2 = mkpos<D>("c2");
    double r1 = sx_real_pos("r", 1, 0, 0), r2 = sx_real_pos("r", 2, 0, 0), rho = sx_real_pos("rho", 0, 0, 0);
    auto s1 = round_shape<D>::make(c1, r1, quaternion{}), s2 = round_shape<D>::make(c2, r2, quaternion{});
    physics::force<D> f;
    physics::velocity<D> v1, v2;
    for (int d = 0; d < D; ++d) { f[d] = sx_real("f", d, 0, 0); v1[d] = sx_real("v1", d, 0, 0); v2[d] = sx_real("v2", d, 0, 0); }
    auto p = make_particle_with_force(s1, f, rho);
    typedef decltype(s1) shape;
    typename particle<shape>::angular_velocity_type w1{}, w2{};
    particle<shape> a(s1, v1, w1), b(s2, v2, w2);
    auto x = position_diff<shape, D>(a, b);
    auto y = velocity_diff<shape, D>(a, b);
    double dist = distance<shape, D>(a, b), e = 0;
    sx_assert_eq(p.rho_, rho, "particle-data", 0);
    for (int d = 0; d < D; ++d)
    {
        sx_assert_eq(p.force_[d], f[d], "particle-data", 10 + d);
        sx_assert_eq(p.center_[d], c1[d], "particle-data", 20 + d);
        sx_assert_eq(p.shape_factors_[d], r1, "particle-data", 30 + d);
        sx_assert_eq(a.velocity_[d], v1[d], "particle-data", 40 + d);
        sx_assert_eq(x[d], c1[d] - c2[d], "particle-difference", d);
        sx_assert_eq(y[d], v1[d] - v2[d], "particle-difference", 10 + d);
        e += sq(c1[d] - c2[d]);
    }
    with_velocity(s1, v1, std::integral_constant<int, D>{});
    auto q = mkpos<D>("p");
    sx_assert(p.contains(q) == s1.contains(q), "particle-data", 1);
    sx_assert_eq(p.volume(), s1.volume(), "particle-data", 2);
    sx_assert_eq(p.surface_area(), s1.surface_area(), "particle-data", 3);
    sx_assert_eq(dist * dist, e, "particle-distance", 0);
    sx_assert_le(0., dist, "particle-distance", 1);
    sx_reach("particles");
}
extern "C" void sx_main()
{
    int D = sx_cfg("dim", 2);
    switch (sx_cfg("part", 0))
    {
    case 0: D == 2 ? roundness<2>() : roundness<3>(); break;
    case 1: D == 2 ? ellipsoid<2>() : ellipsoid<3>(); break;
    case 2: D == 2 ? boxes<2>() : boxes<3>(); break;
    case 3: D == 2 ? mesh_boxes<2>() : mesh_boxes<3>(); break;
    case 4: D == 2 ? parametric2() : parametric3(); break;
    case 5: D == 2 ? samples2() : samples3(); break;
    case 6: samples_any(); break;
    case 7: D == 2 ? fluid_points<2>() : fluid_points<3>(); break;
    case 8: D == 2 ? surface_points<2>() : surface_points<3>(); break;
    case 9: D == 2 ? particles<2>() : particles<3>(); break;
    }
}
