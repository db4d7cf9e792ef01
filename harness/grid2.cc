// Fast grids for bathymetry and sound speed.
#include <usml/types/data_grid_bathy.h>
#include <usml/types/data_grid_svp.h>
#include "grid_mock.h"
// ---- bathymetry: linear and nearest modes agree with the general grid
static void bathy() {
    int ak = (int)vp_param("ax", 1), lin = (int)vp_param("types", 1), where = (int)vp_param("where", 0), lim = (int)vp_param("limit", 1);
    axis_t ax[2]; seq_vector::csptr s[2]; double val[64]; int type[2] = {lin, lin};
    for (int d = 0; d < 2; ++d) { ax[d] = axis(d, (ak + d) % 4, 3 + d); s[d] = ax[d].s; }
    gen_grid<2>* g = new gen_grid<2>(s); data_grid<2>::csptr ref(g);
    for (int d = 0; d < 2; ++d) { g->interp_type(d, lin ? interp_enum::linear : interp_enum::nearest); g->edge_limit(d, lim); }
    fill<2>(*g, ax, val);
    data_grid_bathy b(ref);
    size_t k[2]; double loc[2], in[2];
    for (int d = 0; d < 2; ++d) {
        size_t last = ax[d].n - 2; int w = where > 2 ? (d == 1 ? where - 2 : 0) : d == 0 ? where : 0; double sg = ax[d].x[1] > ax[d].x[0] ? 1 : -1;
        if (w == 1) { k[d] = 0; loc[d] = ax[d].x[0] - sg * vp_real("far", 1e-3, 100); in[d] = lim ? ax[d].x[0] : loc[d]; continue; }
        if (w == 2) { k[d] = last; loc[d] = ax[d].x[last + 1] + sg * vp_real("far", 1e-3, 100); in[d] = lim ? ax[d].x[last + 1] : loc[d]; continue; }
        k[d] = vp_choice(name("k", d), 0, last); loc[d] = in[d] = inside(ax[d], d, k[d], 1e-6);
    }
    if (!lin) for (int d = 0; d < 2; ++d) { double u = (in[d] - ax[d].x[k[d]]) / (ax[d].x[k[d] + 1] - ax[d].x[k[d]]); if (vp_split(u < 0.5)) { vp_assume(u < 0.5 - 1e-6); } else vp_assume(u > 0.5 + 1e-6); }
    double d[2] = {7, 7}, v = b.interpolate(loc, d), v0 = b.interpolate(loc);
    vp_eq_scale(v, blend<2>(ax, val, k, in, type, -1), 1000, "value is the blend of the corners of the cell");
    vp_eq(v0, v, "same value without derivatives");
    for (int i = 0; i < 2; ++i) vp_eq_scale(d[i], blend<2>(ax, val, k, in, type, i), 1000, "derivative of the blend");
}
static void bathy_nodes() {
    int ak = (int)vp_param("ax", 1), t = (int)vp_param("types", 2); const size_t N = 4;
    axis_t ax[2]; seq_vector::csptr s[2]; double val[64];
    for (int d = 0; d < 2; ++d) { ax[d] = axis(d, (ak + d) % 4, N); s[d] = ax[d].s; }
    gen_grid<2>* g = new gen_grid<2>(s); data_grid<2>::csptr ref(g);
    for (int d = 0; d < 2; ++d) g->interp_type(d, t == 0 ? interp_enum::nearest : t == 1 ? interp_enum::linear : interp_enum::pchip);
    fill<2>(*g, ax, val);
    data_grid_bathy b(ref);
    vp_assert(b.data() == g->data() && b.axis_csptr(0) == s[0] && b.axis_csptr(1) == s[1], "shares the data of the grid");
    for (int d = 0; d < 2; ++d) vp_assert(b.interp_type(d) == g->interp_type(d) && b.edge_limit(d) == g->edge_limit(d), "settings of the grid");
    size_t i[2] = {(size_t)vp_choice("i", 0, N - 1), (size_t)vp_choice("j", 0, N - 1)}; double loc[2] = {ax[0].x[i[0]], ax[1].x[i[1]]};
    vp_eq_scale(b.interpolate(loc), at<2>(ax, val, i), 1000, "the node value comes back");
}
// the cubic through four values at 0, 1/3, 2/3 and 1, and its slope
static double lagrange(const double* v, double u, bool slope) {
    double c0 = v[0], c1 = (-11 * v[0] + 18 * v[1] - 9 * v[2] + 2 * v[3]) / 2, c2 = (18 * v[0] - 45 * v[1] + 36 * v[2] - 9 * v[3]) / 2, c3 = (-9 * v[0] + 27 * v[1] - 27 * v[2] + 9 * v[3]) / 2;
    return slope ? c1 + u * (2 * c2 + 3 * u * c3) : c0 + u * (c1 + u * (c2 + u * c3));
}
// bicubic: a cubic along each axis, whose slope is the derivative; even axes join smoothly
static void bathy_cubic() {
    int ak = (int)vp_param("ax", 1), dir = (int)vp_param("dir", 0); const size_t N = 4;
    axis_t ax[2]; seq_vector::csptr s[2]; double val[64];
    for (int d = 0; d < 2; ++d) { ax[d] = axis(d, ak == 0 ? 0 : (ak + d) % 4, N); s[d] = ax[d].s; }
    gen_grid<2>* g = new gen_grid<2>(s); data_grid<2>::csptr ref(g);
    for (int d = 0; d < 2; ++d) g->interp_type(d, interp_enum::pchip);
    fill<2>(*g, ax, val);
    data_grid_bathy b(ref);
    size_t k[2] = {(size_t)vp_param("k0", 1), (size_t)vp_param("k1", 1)};
    double loc[2], u[2]; for (int d = 0; d < 2; ++d) { u[d] = vp_real(name("u", d), 1e-6, 1 - 1e-6); loc[d] = ax[d].x[k[d]] + u[d] * (ax[d].x[k[d] + 1] - ax[d].x[k[d]]); }
    double de[2], v = b.interpolate(loc, de), w[4], h = ax[dir].x[k[dir] + 1] - ax[dir].x[k[dir]];
    for (int n = 0; n < 4; ++n) { double p[2] = {loc[0], loc[1]}; p[dir] = n == 3 ? ax[dir].x[k[dir] + 1] - h * 1e-9 : ax[dir].x[k[dir]] + h * n / 3; w[n] = 0; if (n < 3) w[n] = b.interpolate(p); else { // extrapolated from inside the cell
            double q[2] = {loc[0], loc[1]}, a[3]; for (int m = 0; m < 3; ++m) { q[dir] = ax[dir].x[k[dir]] + h * (m + 1) / 4; a[m] = b.interpolate(q); } w[3] = -w[0] + 4 * a[0] - 6 * a[1] + 4 * a[2]; } }
    vp_eq_scale(v, lagrange(w, u[dir], false), 1000, "cubic along the axis"); vp_eq_scale(de[dir], lagrange(w, u[dir], true) / h, 1000, "derivative is the slope of the cubic");
    if (k[dir] + 2 < N && ak == 0) {   // the next cell starts with the value at the far edge
        double p[2] = {loc[0], loc[1]}; p[dir] = ax[dir].x[k[dir] + 1];
        vp_eq_scale(b.interpolate(p), w[3], 1000, "value is continuous between cells");
    }
}
// ---- sound speed: cubic in depth, linear in the other dimensions
static double dslope(const double* x, const double* y, size_t n, size_t i) {
    double h0, h1, d0, d1;
    if (i == 0 || i == n - 1) {
        size_t a = i == 0 ? 0 : n - 1, b = i == 0 ? 1 : n - 2, c = i == 0 ? 2 : n - 3;
        h0 = x[b] - x[a]; h1 = x[c] - x[b]; d0 = (y[b] - y[a]) / h0; d1 = (y[c] - y[b]) / h1;
        double m = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1);
        if (m * d0 <= 0) return 0;
        double am = m < 0 ? -m : m, ad = 3 * d0; if (ad < 0) ad = -ad;
        if (d0 * d1 <= 0 && am > ad) return 3 * d0;
        return m;
    }
    h0 = x[i] - x[i - 1]; h1 = x[i + 1] - x[i]; d0 = (y[i] - y[i - 1]) / h0; d1 = (y[i + 1] - y[i]) / h1;
    if (!(d0 * d1 > 0)) return 0;
    double w1 = 2 * h1 + h0, w2 = h1 + 2 * h0; return (w1 + w2) / (w1 / d0 + w2 / d1);
}
static void svp() {
    int ak = (int)vp_param("ax", 1), where = (int)vp_param("where", 0), lim = (int)vp_param("limit", 1), mode = (int)vp_param("mode", 0);
    const size_t N = 4; axis_t ax[3]; seq_vector::csptr s[3]; double val[64]; bool nodes = mode == 1;
    ax[0] = axis(0, ak, N); ax[1] = axis(1, 2, nodes ? 3 : 2); ax[2] = axis(2, 1, nodes ? 3 : 2);
    for (int d = 0; d < 3; ++d) s[d] = ax[d].s;
    gen_grid<3>* g = new gen_grid<3>(s); data_grid<3>::csptr ref(g); for (int d = 0; d < 3; ++d) g->edge_limit(d, lim);
    size_t k[3], i[3];
    for (i[0] = 0; i[0] < N; ++i[0]) for (i[1] = 0; i[1] < ax[1].n; ++i[1]) for (i[2] = 0; i[2] < ax[2].n; ++i[2]) {
        size_t o = (i[0] * ax[1].n + i[1]) * ax[2].n + i[2]; double sl = i[1] ? 3 : -2;
        // one column of data is free, the others rise or fall steadily
        bool mine = i[1] == (size_t)vp_param("ci", 0) && i[2] == (size_t)vp_param("cj", 1);
        val[o] = mine ? vp_real(name("v", i[0]), -100, 100) : sl * (i[0] + 0.3 * i[0] * i[0]) + 7.0 * i[2] + 1500;
        g->setdata(i, val[o]);
    }
    for (size_t n = 0; n + 1 < N; ++n) {   // no flat pieces
        size_t a[3] = {n, (size_t)vp_param("ci", 0), (size_t)vp_param("cj", 1)}, b[3] = {n + 1, a[1], a[2]}; double d = at<3>(ax, val, b) - at<3>(ax, val, a); if (vp_split(d > 0)) { vp_assume(d > 1e-6); } else vp_assume(d < -1e-6);
    }
    data_grid_svp* f = new data_grid_svp(ref);
    if (mode == 1) {
        for (int d = 0; d < 3; ++d) i[d] = vp_choice(name("i", d), 0, ax[d].n - 1);
        double loc[3] = {ax[0].x[i[0]], ax[1].x[i[1]], ax[2].x[i[2]]};
        vp_eq_scale(f->interpolate(loc), at<3>(ax, val, i), 1000, "the node value comes back");
        delete f; return;
    }
    double loc[3], in[3];
    for (int d = 0; d < 3; ++d) {
        size_t last = ax[d].n - 2; int w = where > 2 ? (d == 1 ? where - 2 : 0) : d == 0 ? where : 0; double sg = ax[d].x[1] > ax[d].x[0] ? 1 : -1;
        k[d] = w == 1 ? 0 : w == 2 ? last : d == 0 ? (size_t)vp_param("k", 1) : 0;
        if (w == 0) { loc[d] = in[d] = inside(ax[d], d, k[d], 1e-6); continue; }
        loc[d] = w == 1 ? ax[d].x[0] - sg * vp_real("far", 1e-3, 100) : ax[d].x[last + 1] + sg * vp_real("far", 1e-3, 100);
        in[d] = lim ? w == 1 ? ax[d].x[0] : ax[d].x[last + 1] : loc[d];
    }
    double de[3] = {0, 0, 0}, v;
    double keep[3] = {loc[0], loc[1], loc[2]};
    if (mode == 2) { const data_grid<3>& q = *f; v = q.interpolate(loc, de); }   // as a data grid
    else v = f->interpolate(loc, de);
    // cubic of each column, and its slope
    double c[2][2], dc[2][2], h = ax[0].x[k[0] + 1] - ax[0].x[k[0]], t = (in[0] - ax[0].x[k[0]]) / h;
    for (size_t a = 0; a < 2; ++a) for (size_t b = 0; b < 2; ++b) {
        double y[8]; for (size_t n = 0; n < N; ++n) { size_t o[3] = {n, k[1] + a, k[2] + b}; y[n] = at<3>(ax, val, o); }
        double m0 = dslope(ax[0].x, y, N, k[0]), m1 = dslope(ax[0].x, y, N, k[0] + 1), y0 = y[k[0]], y1 = y[k[0] + 1];
        c[a][b] = y0 * (2 * t * t * t - 3 * t * t + 1) + h * m0 * (t * t * t - 2 * t * t + t) + y1 * (3 * t * t - 2 * t * t * t) + h * m1 * (t * t * t - t * t);
        dc[a][b] = y0 * (6 * t * t - 6 * t) / h + m0 * (3 * t * t - 4 * t + 1) + y1 * (6 * t - 6 * t * t) / h + m1 * (3 * t * t - 2 * t);
    }
    double hx = ax[1].x[k[1] + 1] - ax[1].x[k[1]], hy = ax[2].x[k[2] + 1] - ax[2].x[k[2]], x = (in[1] - ax[1].x[k[1]]) / hx, y = (in[2] - ax[2].x[k[2]]) / hy;
    vp_eq_scale(v, (c[0][0] * (1 - x) + c[1][0] * x) * (1 - y) + (c[0][1] * (1 - x) + c[1][1] * x) * y, 1000, "cubic in depth, linear in the other dimensions");
    vp_eq_scale(de[0], (dc[0][0] * (1 - x) + dc[1][0] * x) * (1 - y) + (dc[0][1] * (1 - x) + dc[1][1] * x) * y, 1000, "derivative in depth");
    vp_eq_scale(de[1], ((c[1][0] - c[0][0]) * (1 - y) + (c[1][1] - c[0][1]) * y) / hx, 1000, "derivative in the second dimension");
    vp_eq_scale(de[2], ((c[0][1] - c[0][0]) * (1 - x) + (c[1][1] - c[1][0]) * x) / hy, 1000, "derivative in the third dimension");
    if (vp_param("same", 1)) for (int d = 0; d < 3; ++d) vp_eq(loc[d], keep[d], "the location is not changed");
    delete f;
}
// many points at a time
static void many() {
    bool three = vp_param("dim", 2) == 3; axis_t ax[3]; seq_vector::csptr s[3]; double val[64];
    for (int d = 0; d < 3; ++d) { ax[d] = axis(d, d == 1 ? 2 : 1, 4 - d); s[d] = ax[d].s; }
    matrix<double> x(2, 2), y(2, 2), z(2, 2), r(2, 2), r0(2, 2), dx(2, 2), dy(2, 2), dz(2, 2);
    for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) { bool m = i == 1 && j == 0; x(i, j) = m ? inside(ax[0], 0, 1) : ax[0].x[0] + 0.1 * (i + j); y(i, j) = m ? inside(ax[1], 1, 0) : ax[1].x[1] - 0.1 * (2 * i + j); z(i, j) = m ? inside(ax[2], 2, 0) : ax[2].x[0] + 0.2 * i + 0.1 * j; }
    if (three) {
        gen_grid<3>* g = new gen_grid<3>(s); data_grid<3>::csptr ref(g); size_t i[3];
        for (i[0] = 0; i[0] < 4; ++i[0]) for (i[1] = 0; i[1] < 3; ++i[1]) for (i[2] = 0; i[2] < 2; ++i[2]) g->setdata(i, 1500 + 3.0 * i[0] * i[0] + 5.0 * i[1] * i[0] - 2.0 * i[2] * (1 + i[1]));
        data_grid_svp f(ref); f.interpolate(x, y, z, &r0); f.interpolate(x, y, z, &r, &dx, &dy, &dz);
        for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) { double loc[3] = {x(i, j), y(i, j), z(i, j)}, de[3], v = f.interpolate(loc, de); vp_eq(r(i, j), v, "values of all points"); vp_eq(r0(i, j), v, "values of all points"); vp_eq(dx(i, j), de[0], "x derivatives"); vp_eq(dy(i, j), de[1], "y derivatives"); vp_eq(dz(i, j), de[2], "z derivatives"); }
        return;
    }
    gen_grid<2>* g = new gen_grid<2>(s); data_grid<2>::csptr ref(g); fill<2>(*g, ax, val); data_grid_bathy f(ref);
    f.interpolate(x, y, &r0); f.interpolate(x, y, &r, &dx, &dy);
    for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) { double loc[2] = {x(i, j), y(i, j)}, de[2], v = f.interpolate(loc, de); vp_eq(r(i, j), v, "values of all points"); vp_eq(r0(i, j), v, "values of all points"); vp_eq(dx(i, j), de[0], "x derivatives"); vp_eq(dy(i, j), de[1], "y derivatives"); }
}
void h_main() {
    switch (vp_param("kind", 0)) {
        case 0: bathy(); break;
        case 1: bathy_nodes(); break;
        case 2: bathy_cubic(); break;
        case 3: svp(); break;
        case 4: many(); break;
    }
}
