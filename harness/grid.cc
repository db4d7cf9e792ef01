// General N-dimensional grids.
#include "grid_mock.h"
template <size_t D> static void cell() {
    int ak = (int)vp_param("ax", 0), tt = (int)vp_param("types", 7), where = (int)vp_param("where", 0), lim = (int)vp_param("limit", 1), sn = (int)vp_param("n", D < 3 ? 3 : 2), one = (int)vp_param("one", -1);
    axis_t ax[D]; double val[64]; seq_vector::csptr s[D]; int type[D];
    for (size_t d = 0; d < D; ++d) { ax[d] = axis((int)d, d == 0 || ak == 4 ? ak : (ak + (int)d) % 4, (int)d == one ? 1 : sn + (d == 1)); s[d] = ax[d].s; type[d] = (tt >> d) & 1; }
    gen_grid<D> g(s);
    for (size_t d = 0; d < D; ++d) { g.interp_type(d, type[d] ? interp_enum::linear : interp_enum::nearest); g.edge_limit(d, lim); }
    fill<D>(g, ax, val);
    size_t k[D]; double loc[D], in[D];
    for (size_t d = 0; d < D; ++d) {
        if (ax[d].n == 1) { k[d] = 0; loc[d] = vp_real(name("u", d), -100, 100); in[d] = ax[d].x[0]; continue; }
        size_t last = ax[d].n - 2;
        int w = d == 0 ? where : 0;
        double sg = ax[d].x[1] > ax[d].x[0] ? 1 : -1;
        if (w == 1) { k[d] = 0; loc[d] = ax[d].x[0] - sg * vp_real("far", 1e-3, 100); in[d] = lim ? ax[d].x[0] : loc[d]; continue; }
        if (w == 2) { k[d] = last; loc[d] = ax[d].x[last + 1] + sg * vp_real("far", 1e-3, 100); in[d] = lim ? ax[d].x[last + 1] : loc[d]; continue; }
        k[d] = vp_choice(name("k", d), 0, last);
        loc[d] = inside(ax[d], d, k[d], 1e-6); in[d] = loc[d];
    }
    for (size_t d = 0; d < D; ++d) if (!type[d] && ax[d].n > 1) { double u = (in[d] - ax[d].x[k[d]]) / (ax[d].x[k[d] + 1] - ax[d].x[k[d]]); if (vp_split(u < 0.5)) { vp_assume(u < 0.5 - 1e-6); } else vp_assume(u > 0.5 + 1e-6); }
    double der[D], v = g.interpolate(loc, der), v0 = g.interpolate(loc);
    vp_eq_scale(v, blend<D>(ax, val, k, in, type, -1), 1000, "value is the blend of the corners of the cell");
    vp_eq(v0, v, "same value without derivatives");
    for (size_t d = 0; d < D; ++d) vp_eq_scale(der[d], blend<D>(ax, val, k, in, type, (int)d), 1000, "derivative of the blend");
}
// the value at a node
template <size_t D> static void nodes() {
    int ak = (int)vp_param("ax", 0), tt = (int)vp_param("type", 0), sn = (int)vp_param("n", 4);
    axis_t ax[D]; double val[64]; seq_vector::csptr s[D];
    for (size_t d = 0; d < D; ++d) { ax[d] = axis((int)d, (ak + (int)d) % 4, sn); s[d] = ax[d].s; }
    gen_grid<D> g(s);
    for (size_t d = 0; d < D; ++d) g.interp_type(d, tt == 0 ? interp_enum::nearest : tt == 1 ? interp_enum::linear : tt == 2 ? interp_enum::pchip : d == 0 ? interp_enum::pchip : interp_enum::linear);
    fill<D>(g, ax, val);
    size_t i[D]; double loc[D];
    for (size_t d = 0; d < D; ++d) { i[d] = vp_choice(name("i", d), 0, sn - 1); loc[d] = ax[d].x[i[d]]; }
    vp_eq_scale(g.interpolate(loc), at<D>(ax, val, i), 1000, "the node value comes back");
    vp_eq(g.data(i), at<D>(ax, val, i), "stored data");
}
// many points at a time
static void many() {
    int D = (int)vp_param("dim", 1); axis_t ax[3]; seq_vector::csptr s[3]; double val[64];
    for (int d = 0; d < 3; ++d) { ax[d] = axis(d, d == 1 ? 2 : 1, 3); s[d] = ax[d].s; }
    matrix<double> x(2, 3), y(2, 3), z(2, 3), r(2, 3), r0(2, 3), dx(2, 3), dy(2, 3), dz(2, 3);
    for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 3; ++j) { x(i, j) = i == 1 && j == 2 ? inside(ax[0], 0, 1) : ax[0].x[0] + 0.1 * (i + j); y(i, j) = i == 1 && j == 2 ? inside(ax[1], 1, 0) : ax[1].x[1] - 0.1 * (2 * i + j); z(i, j) = i == 1 && j == 2 ? inside(ax[2], 2, 1) : ax[2].x[1] + 0.2 * i - 0.1 * j; }
#define CHECK(N, ARGS, DARGS) { gen_grid<N> g(s); fill<N>(g, ax, val); const data_grid<N>& q = g; q.interpolate ARGS; q.interpolate DARGS; \
    for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 3; ++j) { double loc[3] = {x(i, j), y(i, j), z(i, j)}, de[3] = {0, 0, 0}; double v = q.interpolate(loc, de); \
        vp_eq(r(i, j), v, "values of all points"); vp_eq(r0(i, j), v, "values of all points"); vp_eq(dx(i, j), de[0], "x derivatives"); if (N > 1) vp_eq(dy(i, j), de[1], "y derivatives"); if (N > 2) vp_eq(dz(i, j), de[2], "z derivatives"); } }
    if (D == 1) CHECK(1, (x, &r0), (x, &r, &dx))
    if (D == 2) CHECK(2, (x, y, &r0), (x, y, &r, &dx, &dy))
    if (D == 3) CHECK(3, (x, y, z, &r0), (x, y, z, &r, &dx, &dy, &dz))
}
// grids of vectors and of complex numbers interpolate each component
static void vectors() {
    typedef boost::numeric::ublas::vector<double> vec; const size_t M = 2, N = 4;
    int tt = (int)vp_param("type", 1); axis_t a = axis(0, 1, N); axis_t b = axis(1, 2, N); seq_vector::csptr s[2] = {a.s, b.s};
    interp_enum t = tt == 0 ? interp_enum::nearest : tt == 1 ? interp_enum::linear : interp_enum::pchip;
    gen_grid<1, vec> g(s); gen_grid<1> c0(s), c1(s); g.interp_type(0, t); c0.interp_type(0, t); c1.interp_type(0, t);
    for (size_t i = 0; i < N; ++i) { vec v(M); for (size_t m = 0; m < M; ++m) v(m) = vp_real(name("v", i, m), -1000, 1000); g.setdata(&i, v); c0.setdata(&i, v(0)); c1.setdata(&i, v(1)); }
    double loc = inside(a, 0, vp_param("k", 1), 1e-6);
    vec d(M); vec v = g.interpolate(&loc, &d); double d0, d1, v0 = c0.interpolate(&loc, &d0), v1 = c1.interpolate(&loc, &d1);
    vp_assert(v.size() == M && d.size() == M, "size");
    vp_eq(v(0), v0, "first component"); vp_eq(v(1), v1, "second component");
    if (tt) { vp_eq(d(0), d0, "derivative of the first component"); vp_eq(d(1), d1, "derivative of the second component"); }
}
// the interpolation type and the edge limit of each axis
static void types() {
    axis_t ax[3] = {axis(0, 1, 1), axis(1, 1, 3), axis(2, 1, 4)}; seq_vector::csptr s[3] = {ax[0].s, ax[1].s, ax[2].s}; gen_grid<3> g(s);
    for (size_t d = 0; d < 3; ++d) { vp_assert(g.interp_type(d) == interp_enum::linear && g.edge_limit(d), "linear with limited edges"); vp_assert(g.axis_csptr(d) == s[d] && g.axis_list()[d] == s[d] && &g.axis(d) == s[d].get(), "axes"); }
    int before = (int)vp_choice("before", -1, 1), t = (int)vp_choice("t", -1, 1); size_t d = (size_t)vp_choice("d", 0, 2);
    g.interp_type(d, (interp_enum)before); g.interp_type(d, (interp_enum)t);
    int best = d == 0 ? -1 : d == 1 ? 0 : 1; int want = t < best ? t : best;
    if (d > 0 || t < 0) vp_assert((int)g.interp_type(d) == want, "the axis gets the type, as far as it is long enough");
    g.edge_limit(d, false); vp_assert(!g.edge_limit(d) && g.edge_limit((d + 1) % 3), "edge limit of one axis");
}
// ---- P04: shape preserving cubic interpolation
static double interior(double h0, double h1, double d0, double d1) {   // slope at the node between two cells
    if (!(d0 * d1 > 0)) return 0;
    double w1 = 2 * h1 + h0, w2 = h1 + 2 * h0; return (w1 + w2) / (w1 / d0 + w2 / d1);
}
static double endpoint(double h0, double h1, double d0, double d1) {
    double m = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1);
    if (m * d0 <= 0) return 0;
    double a = m < 0 ? -m : m, b = 3 * d0; if (b < 0) b = -b;
    if (d0 * d1 < 0 && a > b) return 3 * d0;
    return m;
}
static double slope(const double* x, const double* y, size_t n, size_t i) {
#define H(k) (x[(k) + 1] - x[k])
#define DD(k) ((y[(k) + 1] - y[k]) / H(k))
    if (i == 0) return endpoint(H(0), H(1), DD(0), DD(1));
    if (i == n - 1) return endpoint(H(n - 2), H(n - 3), DD(n - 2), DD(n - 3));
    return interior(H(i - 1), H(i), DD(i - 1), DD(i));
}
static double hermite(const double* x, const double* y, size_t n, size_t k, double p, double* der) {
    double h = H(k), s = p - x[k], u = s / h, a = slope(x, y, n, k), b = slope(x, y, n, k + 1);
    if (der) *der = a * (1 - u) + b * u;
    return y[k + 1] * (3 * h * s * s - 2 * s * s * s) / (h * h * h) + y[k] * (h * h * h - (3 * h * s * s - 2 * s * s * s)) / (h * h * h) + b * s * s * (s - h) / (h * h) + a * s * (s - h) * (s - h) / (h * h);
}
static void cubic() {
    size_t N = vp_param("n", 4), k = vp_param("k", 1);
    axis_t a = axis(0, (int)vp_param("ax", 1), N); double y[8]; gen_grid<1> g(&a.s); g.interp_type(0, interp_enum::pchip);
    vp_assert(g.interp_type(0) == interp_enum::pchip, "cubic");
    for (size_t i = 0; i < N; ++i) { y[i] = vp_real(name("y", i), -100, 100); g.setdata(&i, y[i]); }
    // rises and falls of the data, with a margin
    for (size_t i = 0; i + 1 < N; ++i) { double d = y[i + 1] - y[i]; if (vp_split(d > 0)) { vp_assume(d > 1e-6); } else vp_assume(d < -1e-6); }
    for (int e = 0; e < 2; ++e) if (e ? k + 2 == N : k == 0) {   // the end slope is limited
        double h0 = e ? a.x[N - 1] - a.x[N - 2] : a.x[1] - a.x[0], h1 = e ? a.x[N - 2] - a.x[N - 3] : a.x[2] - a.x[1];
        double d0 = e ? (y[N - 1] - y[N - 2]) / h0 : (y[1] - y[0]) / h0, d1 = e ? (y[N - 2] - y[N - 3]) / h1 : (y[2] - y[1]) / h1;
        double m = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1), t = m / d0;
        if (vp_split(t < 0)) { vp_assume(t < -1e-6); } else if (vp_split(t > 3)) { vp_assume(t > 3 + 1e-6); } else vp_assume(t > 1e-6 && t < 3 - 1e-6);
    }
    double p = inside(a, 0, k, 1e-6), d, v = g.interpolate(&p, &d), r, e = hermite(a.x, y, N, k, p, &r);
    vp_eq_scale(v, e, 100, "cubic with the slopes of the nodes");
    vp_eq_scale(d, r, 100, "slope changes from node to node");
    if (vp_param("mono", 0)) {
        double lo = min2(y[k], y[k + 1]), hi = y[k] + y[k + 1] - lo;
        vp_le(lo, v, "stays above the lower node"); vp_le(v, hi, "stays below the higher node");
    }
}
// the slope on both sides of a node, and its size
static void joint() {
    size_t N = vp_param("n", 5), i = vp_param("i", 2);
    axis_t a = axis(0, (int)vp_param("ax", 1), N); double y[8]; gen_grid<1> g(&a.s); g.interp_type(0, interp_enum::pchip); g.edge_limit(0, false);
    for (size_t j = 0; j < N; ++j) { y[j] = vp_real(name("y", j), -100, 100); g.setdata(&j, y[j]); }
    // the slopes of a cubic follow from its values at the ends and at two points inside
    double sl[2] = {0, 0};
    for (int side = 0; side < 2; ++side) {
        if (side == 0 && i == 0) continue; if (side == 1 && i + 1 == N) continue;
        size_t k = side ? i : i - 1; double h = a.x[k + 1] - a.x[k];
        double p1 = a.x[k] + h / 3, p2 = a.x[k] + 2 * h / 3;
        double v0 = y[k], v1 = g.interpolate(&p1), v2 = g.interpolate(&p2), v3 = y[k + 1];
        double s0 = (-11 * v0 + 18 * v1 - 9 * v2 + 2 * v3) / (2 * h), s1 = (11 * v3 - 18 * v2 + 9 * v1 - 2 * v0) / (2 * h);
        sl[side] = side ? s0 : s1;
        double dd = (v3 - v0) / h, m = sl[side];
        vp_le(0, dd >= 0 ? m : -m, "slope has the sign of the data"); vp_le(dd >= 0 ? m : -m, 3 * (dd >= 0 ? dd : -dd), "slope is at most three times that of the data");
    }
    if (i > 0 && i + 1 < N) vp_eq_scale(sl[0], sl[1], 1000, "slope is continuous at the node");
}
// straight data give a straight line
static void straight() {
    size_t N = vp_param("n", 4); axis_t a = axis(0, (int)vp_param("ax", 1), N); gen_grid<1> g(&a.s); g.interp_type(0, interp_enum::pchip);
    double m = vp_real("m", 0.1, 10), b = vp_real("b", -10, 10); if (vp_choice("falls", 0, 1)) m = -m;
    for (size_t j = 0; j < N; ++j) g.setdata(&j, m * a.x[j] + b);
    size_t k = vp_choice("k", 0, N - 2); double p = inside(a, 0, k, 1e-6), d, v = g.interpolate(&p, &d);
    vp_eq_scale(v, m * p + b, 100, "straight line"); vp_eq_scale(d, m, 10, "constant slope");
}
// cubic in one dimension, linear or cubic in the other
static void cubic2() {
    size_t N = 4; int t1 = (int)vp_param("type1", 1), t0 = (int)vp_param("type0", 2);
    axis_t a = axis(0, 1, N), b = axis(1, 2, N); seq_vector::csptr s[2] = {a.s, b.s}; gen_grid<2> g(s);
    g.interp_type(0, t0 == 2 ? interp_enum::pchip : interp_enum::linear); g.interp_type(1, t1 == 2 ? interp_enum::pchip : interp_enum::linear);
    double y[16]; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { size_t x[2] = {i, j}; y[i * N + j] = (i + j) % 3 == 0 || vp_param("all", 0) ? vp_real(name("y", i, j), -100, 100) : 3.0 * i * i - 7.0 * j + 5.0 * i * j; g.setdata(x, y[i * N + j]); }
    size_t k0 = vp_param("k0", 1), k1 = vp_param("k1", 1); double loc[2] = {inside(a, 0, k0, 1e-6), inside(b, 1, k1, 1e-6)};
    double col[4]; for (size_t j = 0; j < N; ++j) { double c[4]; for (size_t i = 0; i < N; ++i) c[i] = y[i * N + j]; double u = (loc[0] - a.x[k0]) / (a.x[k0 + 1] - a.x[k0]); col[j] = t0 == 2 ? hermite(a.x, c, N, k0, loc[0], nullptr) : c[k0] * (1 - u) + c[k0 + 1] * u; }
    double u = (loc[1] - b.x[k1]) / (b.x[k1 + 1] - b.x[k1]);
    double want = t1 == 2 ? hermite(b.x, col, N, k1, loc[1], nullptr) : col[k1] * (1 - u) + col[k1 + 1] * u;
    vp_eq_scale(g.interpolate(loc), want, 100, "one dimension after the other");
}
void h_main() {
    switch (vp_param("kind", 0)) {
        case 0: cell<1>(); break;
        case 1: cell<2>(); break;
        case 2: cell<3>(); break;
        case 3: nodes<1>(); break;
        case 4: nodes<2>(); break;
        case 5: many(); break;
        case 6: vectors(); break;
        case 7: types(); break;
        case 8: cubic(); break;
        case 9: joint(); break;
        case 10: straight(); break;
        case 11: cubic2(); break;
    }
}
