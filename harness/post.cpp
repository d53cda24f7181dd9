// Post-processing: interpolation on a refined mesh, saved files.
#include <petsc.h>
#include <petscviewerhdf5.h>
#include <hx.h>
#include <symx.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <functional>
#include <iomanip>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <map>
#include <vector>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <cstring>
#include <cstdio>

// Text streams that keep what is written: files as (name, text), numbers that
// are not known yet as references into a table.
namespace txt
{
struct buf
{
    char *p = nullptr;
    int n = 0, cap = 0;
    void add(char c)
    {
        if (n + 2 > cap)
        {
            int nc = cap ? 2 * cap : 256;
            char *q = (char *)malloc(nc);
            for (int i = 0; i < n; ++i) q[i] = p[i];
            free(p); p = q; cap = nc;
        }
        p[n++] = c; p[n] = 0;
    }
    void add(const char *t, int k) { for (int i = 0; i < k; ++i) add(t[i]); }
    void add(const char *t) { while (*t) add(*t++); }
    void num(long v)
    {
        char d[24]; int k = 0;
        bool neg = v < 0;
        unsigned long u = neg ? 0ul - (unsigned long)v : (unsigned long)v;
        do { d[k++] = '0' + u % 10; u /= 10; } while (u);
        if (neg) d[k++] = '-';
        while (k) add(d[--k]);
    }
    const char *c_str() const { return p ? p : ""; }
};
double values[64];
int nvalues = 0;
buf names[8], texts[8];
int nfiles = 0;
struct str
{
    buf b;
    const char *data() const { return b.c_str(); }
    const char *c_str() const { return b.c_str(); }
    operator std::string() const { return b.c_str(); }
};
struct stream
{
    buf *b;
    buf own;
    stream() : b(&own) {}
    stream(const stream &) = delete;
    explicit stream(const char *t) : b(&own) { own.add(t); }
    explicit stream(const str &t) : b(&own) { own.add(t.c_str()); }
    stream &operator<<(const char *t) { b->add(t); return *this; }
    stream &operator<<(const str &t) { b->add(t.c_str()); return *this; }
    stream &operator<<(const std::string &t) { b->add(t.data(), (int)t.size()); return *this; }
    stream &operator<<(char c) { b->add(c); return *this; }
    stream &operator<<(int v) { b->num(v); return *this; }
    stream &operator<<(long v) { b->num(v); return *this; }
    stream &operator<<(unsigned v) { b->num(v); return *this; }
    stream &operator<<(unsigned long v) { b->num((long)v); return *this; }
    stream &operator<<(double v) { values[nvalues] = v; b->add('$'); b->num(nvalues++); return *this; }
    template<class M> auto operator<<(M m) -> decltype(m(std::cout), *this) { b->add('\n'); return *this; }
    str str_() const { str r; r.b.add(b->c_str()); return r; }
};
struct ostream : stream
{
    using stream::stream;
    txt::str str() const { return str_(); }
};
struct file : stream
{
    file() {}
    template<class T> explicit file(const T &n) { open(n); }
    template<class T, class M> file(const T &n, M) { open(n); }
    void open(const char *n) { names[nfiles] = buf(); names[nfiles].add(n); texts[nfiles] = buf(); b = &texts[nfiles++]; }
    void open(const txt::str &n) { open(n.c_str()); }
    void open(const std::string &n) { open(n.c_str()); }
    template<class T, class M> void open(const T &n, M) { open(n); }
    bool is_open() const { return true; }
    operator bool() const { return true; }
    void close() { b = &own; }
    void flush() {}
};
}
namespace std { using sx_ofstream = txt::file; using sx_sstream = txt::ostream; }
#define ofstream sx_ofstream
#define ostringstream sx_sstream
#define stringstream sx_sstream
#include "fem.h"
#include <io/hdf5.hpp>
#include <posttraitement/interpolation.hpp>
#undef ofstream
#undef ostringstream
#undef stringstream
using namespace fx;

template<int D> void refined(int e, DM coarse, DM fine, Vec vc, Vec vf, int dof, const char *name, const std::array<int, D> &r, const std::array<double, D> &)
{
    DM cs[2], fs[2];
    DMCompositeGetEntriesArray(coarse, cs);
    DMCompositeGetEntriesArray(fine, fs);
    auto g = grid_of<D>(cs[e]), f = grid_of<D>(fs[e]);
    for (int d = 0; d < D; ++d)
    {
        sx_assert_eqi(f.n[d], g.per[d] ? r[d] * g.n[d] : r[d] * (g.n[d] - 1) + 1, "refined-size", 3 * e + d);
        sx_assert_eqi(f.per[d], g.per[d], "refined-periodicity", 3 * e + d);
    }
    sx_assert_eqi(fem::get_dof(fs[e]), dof, "refined-dof", e);
    long owned = 0;
    each_owned<D>(fine, vf, e, [&](const ivec<D> &p, double *u) {
        ++owned;
        for (int c = 0; c < dof; ++c)
        {
            double v = 0;
            for (int a = 0; a < nq1<D>(); ++a)
            {
                double w = 1;
                ivec<D> q;
                for (int d = 0; d < D; ++d)
                {
                    int k = p[d] % r[d];
                    q[d] = p[d] / r[d] + bit<D>(a, d);
                    w *= bit<D>(a, d) ? double(k) / r[d] : double(r[d] - k) / r[d];
                }
                if (w == 0) continue;
                g.norm(q);
                v += w * sym(name, g.lin(q), c);
            }
            sx_assert_eq(u[c], v, e ? "refined-pressure" : "refined-velocity", (f.lin(p) * dof + c));
        }
    });
    // the point of index 0 of each process tells who owns what
    DMDALocalInfo i;
    DMDAGetLocalInfo(fs[e], &i);
    sx_assert_eqi(owned, long(i.xm) * i.ym * i.zm, "refined-owned", e);
    sx_observe(e ? "first-pressure" : "first-velocity", sx_rank(), i.xs + 100 * i.ys + 10000 * i.zs);
}
struct domain2
{
    std::array<int, 2> m{{sx_cfg("mx", 3), sx_cfg("my", 4)}};
    std::array<PetscBool, 2> per{{sx_cfg("per", 0) & 1 ? PETSC_TRUE : PETSC_FALSE, sx_cfg("per", 0) & 2 ? PETSC_TRUE : PETSC_FALSE}};
    std::array<double, 2> h{{sx_real_pos("h", 0, 0, 0), sx_real_pos("h", 1, 0, 0)}};
};
template<int D> void interpolation()
{
    std::array<int, D> m, r;
    std::array<PetscBool, D> per;
    std::array<double, D> h;
    const char *mn[3] = {"mx", "my", "mz"}, *rn[3] = {"rx", "ry", "rz"};
    for (int d = 0; d < D; ++d)
    {
        m[d] = sx_cfg(mn[d], D == 2 ? 3 + d : 2 + d % 2);
        r[d] = sx_cfg(rn[d], 2 + d);
        per[d] = (sx_cfg("per", 0) >> d) & 1 ? PETSC_TRUE : PETSC_FALSE;
        h[d] = sx_real_pos("h", d, 0, 0);
    }
    DM mesh, fine;
    fem::createMesh<D>(mesh, m, per);
    Vec x, y;
    DMCreateGlobalVector(mesh, &x);
    fill<D>(mesh, x, 0, "u", D);
    fill<D>(mesh, x, 1, "p", 1);
    sx_assert_eqi(posttraitement::linear_interpolation<D>(mesh, x, fine, y, r, h), 0, "petsc-error", 1);
    refined<D>(0, mesh, fine, x, y, D, "u", r, h);
    refined<D>(1, mesh, fine, x, y, 1, "p", r, h);
    // the solution itself is only read
    auto gv = velocity_grid<D>(m, ivec<D>{});
    DM cs[2];
    DMCompositeGetEntriesArray(mesh, cs);
    for (int e = 0; e < 2; ++e)
    {
        auto g = grid_of<D>(cs[e]);
        each_owned<D>(mesh, x, e, [&](const ivec<D> &p, double *u) {
            for (int c = 0; c < (e ? 1 : D); ++c) sx_assert_eq(u[c], sym(e ? "p" : "u", g.lin(p), c), "solution-unchanged", 2 * (g.lin(p) * D + c) + e);
        });
    }
    sx_reach("interpolated");
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
}
// ------------------------------------------------------------------ saved files
// the little XML needed: elements, attributes, text
struct xml
{
    const char *p;
    const char *at = nullptr, *end = nullptr; // current element: just after its name, its '>'
    char name[40];
    bool close, empty;
    explicit xml(const char *t) : p(t) {}
    static bool space(char c) { return c == ' ' || c == '\n' || c == '\t'; }
    bool next() // the next tag
    {
        while (*p && *p != '<') ++p;
        if (!*p) return false;
        ++p;
        close = *p == '/';
        if (close) ++p;
        int k = 0;
        while (*p && !space(*p) && *p != '>' && *p != '/' && k < 39) name[k++] = *p++;
        name[k] = 0;
        at = p;
        bool q = false;
        while (*p && (q || *p != '>')) { if (*p == '"') q = !q; ++p; }
        if (!*p) return false;
        end = p;
        empty = end[-1] == '/';
        ++p;
        return true;
    }
    bool is(const char *n) const { return !strcmp(name, n); }
    // value of an attribute
    const char *attr(const char *n, char *out, int cap) const
    {
        int l = (int)strlen(n);
        out[0] = 0;
        for (const char *q = at; q < end; ++q)
            if (space(q[0]) && !strncmp(q + 1, n, l))
            {
                const char *r = q + 1 + l;
                while (r < end && space(*r)) ++r;
                if (*r != '=') continue;
                ++r;
                while (r < end && *r != '"') ++r;
                int k = 0;
                for (++r; r < end && *r != '"' && k < cap - 1; ++r) out[k++] = *r;
                out[k] = 0;
                return out;
            }
        return nullptr;
    }
};
static bool token(const char *&t, char *out, int cap)
{
    while (xml::space(*t)) ++t;
    int k = 0;
    while (*t && *t != '<' && !xml::space(*t) && k < cap - 1) out[k++] = *t++;
    out[k] = 0;
    return k > 0;
}
static int integers(const char *t, long *v, int cap)
{
    char w[40];
    int n = 0;
    while (n < cap && token(t, w, 40))
    {
        long x = 0;
        for (char *c = w; *c; ++c) { if (*c < '0' || *c > '9') return -1; x = 10 * x + (*c - '0'); }
        v[n++] = x;
    }
    return n;
}
static int reals(const char *t, double *v, int cap)
{
    char w[40];
    int n = 0;
    while (n < cap && token(t, w, 40))
    {
        if (w[0] == '$') { int k = 0; for (char *c = w + 1; *c; ++c) k = 10 * k + (*c - '0'); v[n++] = txt::values[k]; }
        else // plain decimal
        {
            double x = 0, f = 1;
            bool dot = false;
            for (char *c = w; *c; ++c)
            {
                if (*c == '.') { dot = true; continue; }
                if (*c < '0' || *c > '9') return -1;
                x = 10 * x + (*c - '0');
                if (dot) f *= 10;
            }
            v[n++] = x / f;
        }
    }
    return n;
}
static void saved_file()
{
    domain2 o;
    DM mesh;
    fem::createMesh<2>(mesh, o.m, o.per);
    Vec x;
    DMCreateGlobalVector(mesh, &x);
    fill<2>(mesh, x, 0, "u", 2);
    fill<2>(mesh, x, 1, "p", 1);
    sx_assert_eqi(io::save_hdf5<2>(".", "field", x, mesh, o.h), 0, "petsc-error", 1);
    sx_barrier();
    DM cs[2];
    DMCompositeGetEntriesArray(mesh, cs);
    const char *field[2] = {"velocity", "pressure"};
    // what the file holds
    for (int e = 0; e < 2; ++e)
    {
        auto g = grid_of<2>(cs[e]);
        int dof = e ? 1 : 2, dims[8], nd = hx_saved("./field.h5", field[e], dims);
        sx_assert_eqi(nd, e ? 2 : 3, "saved-dataset", e);
        if (nd < 2) continue;
        sx_assert_eqi(dims[0], g.n[1], "saved-dims", 3 * e);
        sx_assert_eqi(dims[1], g.n[0], "saved-dims", 3 * e + 1);
        if (!e && nd == 3) sx_assert_eqi(dims[2], 2, "saved-dims", 2);
        for (int l = 0; l < g.size(); ++l)
            for (int c = 0; c < dof; ++c) sx_assert_eq(hx_saved_at("./field.h5", field[e], l * dof + c), sym(e ? "p" : "u", l, c), "saved-value", 2 * (l * 2 + c) + e);
    }
    for (int e = 0; e < 2; ++e)
    {
        auto g = grid_of<2>(cs[e]);
        each_owned<2>(mesh, x, e, [&](const ivec<2> &p, double *u) {
            for (int c = 0; c < (e ? 1 : 2); ++c) sx_assert_eq(u[c], sym(e ? "p" : "u", g.lin(p), c), "solution-unchanged", 2 * (g.lin(p) * 2 + c) + e);
        });
    }
    sx_barrier();
    // its description
    if (sx_rank() == 0)
    {
        int f = -1, seen[2] = {0, 0};
        for (int i = 0; i < txt::nfiles; ++i) if (!strcmp(txt::names[i].c_str(), "./field.xdmf")) f = i;
        sx_assert(f >= 0, "description-written", 0);
        if (f < 0) return;
        xml r(txt::texts[f].c_str());
        int depth = 0, e = -1, item = 0;
        long topo[4], dd[4];
        double org[4], step[4];
        int ntopo = 0, nd = 0;
        bool geom = false;
        char a[80], ctr[20], kind[20];
        long pend_topo[4]; int pend_nt = 0; double pend_step[4]; bool have_step = false, org_ok = true;
        while (r.next())
        {
            if (r.close) { --depth; if (r.is("Geometry")) geom = false; continue; }
            if (!r.empty) ++depth;
            if (r.is("Topology"))
            {
                r.attr("TopologyType", kind, 20);
                sx_assert(!strcmp(kind, "2DCoRectMesh"), "description-topology", 0);
                if (!r.attr("NumberOfElements", a, 80)) r.attr("Dimensions", a, 80);
                pend_nt = integers(a, pend_topo, 4);
                have_step = false;
            }
            if (r.is("Geometry")) { geom = true; item = 0; }
            if (r.is("DataItem") && geom)
            {
                double v[4];
                int n = reals(r.p, v, 4);
                sx_assert_eqi(n, 2, "description-geometry", item);
                if (item == 0) { sx_assert_eq(v[0], 0, "description-origin", 0); sx_assert_eq(v[1], 0, "description-origin", 1); }
                else { pend_step[0] = v[0]; pend_step[1] = v[1]; have_step = true; }
                ++item;
            }
            if (r.is("Attribute"))
            {
                r.attr("Name", a, 80);
                e = !strcmp(a, "velocity") ? 0 : !strcmp(a, "pressure") ? 1 : -1;
                sx_assert(e >= 0, "description-field", 0);
                if (e < 0) return;
                ++seen[e];
                r.attr("Center", ctr, 20);
                r.attr("AttributeType", kind, 20);
                sx_assert(!strcmp(ctr, "Node") && !strcmp(kind, e ? "Scalar" : "Vector"), "description-attribute", e);
            }
            if (r.is("DataItem") && !geom && e >= 0)
            {
                auto g = grid_of<2>(cs[e]);
                r.attr("Dimensions", a, 80);
                nd = integers(a, dd, 4);
                sx_assert_eqi(nd, e ? 2 : 3, "description-dims", 10 * e);
                sx_assert_eqi(pend_nt, 2, "description-points", 10 * e);
                // slowest direction first
                for (int d = 0; d < 2; ++d)
                {
                    if (nd > d) sx_assert_eqi(dd[d], g.n[1 - d], "description-dims", 10 * e + 1 + d);
                    if (pend_nt > d) sx_assert_eqi(pend_topo[d], g.n[1 - d], "description-points", 10 * e + 1 + d);
                    if (have_step) sx_assert_eq(pend_step[d], (e ? 2 : 1) * o.h[1 - d], "description-step", 10 * e + d);
                }
                if (!e && nd > 2) sx_assert_eqi(dd[2], 2, "description-dims", 3);
                sx_assert(have_step, "description-step", 10 * e + 2);
                const char *t = r.p;
                char w[80], want[40] = "field.h5:/";
                token(t, w, 80);
                for (int i = 0, l = 10; i <= (int)strlen(field[e]); ++i) want[l + i] = field[e][i];
                sx_assert(!strcmp(w, want), "description-link", e);
                r.attr("Precision", w, 80);
                sx_assert(!strcmp(w, "8"), "description-precision", e);
            }
        }
        sx_assert_eqi(depth, 0, "description-nesting", 0);
        sx_assert_eqi(seen[0], 1, "description-field", 1);
        sx_assert_eqi(seen[1], 1, "description-field", 2);
    }
    sx_reach("saved");
    sx_assert_eqi(hx_petsc_errors(), 0, "petsc-error", 0);
}
static void body()
{
    int part = sx_cfg("part", 0), dim = sx_cfg("dim", 2);
    if (part == 0 && dim == 2) interpolation<2>();
    else if (part == 0) interpolation<3>();
    else saved_file();
}
extern "C" void sx_main() { sx_run_ranks(sx_cfg("np", 1), body); }
