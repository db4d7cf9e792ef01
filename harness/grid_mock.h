// Axes and data for grids.
#include <usml/types/gen_grid.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>
#include <usml/types/seq_log.h>
using namespace usml::types; using namespace usml::ublas;
static char nm[64];
static const char* name(const char* s, long a, long b = -1, long c = -1) {
    int n = 0; for (; s[n]; ++n) nm[n] = s[n];
    long v[3] = {a, b, c}; for (int k = 0; k < 3; ++k) if (v[k] >= 0) { nm[n++] = '_'; nm[n++] = (char)('0' + v[k] / 10); nm[n++] = (char)('0' + v[k] % 10); }
    nm[n] = 0; char* r = new char[n + 1]; for (int k = 0; k <= n; ++k) r[k] = nm[k]; return r;
}
static double min2(double a, double b) { return a < b ? a : b; }
// axis of n points; kind 0: even steps, 1: uneven points, 2: uneven and falling, 3: even and falling, 4: symbolic uneven points
struct axis_t { seq_vector::csptr s; double x[8]; size_t n; };
static axis_t axis(int dim, int kind, size_t n) {
    axis_t a; a.n = n;
    static const double up[8] = {0, 1, 3, 3.5, 6, 10, 11, 11.25}; static const double dn[8] = {5, 4.5, 2, 1, -3, -4, -8, -9};
    if (kind == 0 || kind == 3) {
        double f = vp_real(name("first", dim), -10, 10), i = kind == 0 ? vp_real(name("inc", dim), 0.1, 5) : vp_real(name("inc", dim), -5, -0.1);
        for (size_t k = 0; k < n; ++k) a.x[k] = f + i * k;
        a.s = seq_vector::csptr(new seq_linear(f, i, n)); return a;
    }
    for (size_t k = 0; k < n; ++k) a.x[k] = kind == 1 ? up[k] + dim : kind == 2 ? dn[k] + dim : k == 0 ? vp_real(name("x", dim), -10, 10) : a.x[k - 1] + vp_real(name("h", dim, k), 0.1, 5);
    a.s = seq_vector::csptr(new seq_data(a.x, n)); return a;
}
// a location in cell k of an axis
static double inside(const axis_t& a, int dim, size_t k, double margin = 0) {
    double u = vp_real(name("u", dim), 0, 1); if (margin > 0) vp_assume(u > margin && u < 1 - margin);
    return a.x[k] + u * (a.x[k + 1] - a.x[k]);
}
template <size_t D> static size_t fill(gen_grid<D>& g, axis_t* ax, double* val) {
    size_t total = 1; for (size_t d = 0; d < D; ++d) total *= ax[d].n;
    size_t i[D]; for (size_t d = 0; d < D; ++d) i[d] = 0;
    for (size_t t = 0; t < total; ++t) {
        val[t] = vp_real(name("v", t / 100, t % 100), -1000, 1000);
        size_t r = t; for (size_t d = D; d-- > 0;) { i[d] = r % ax[d].n; r /= ax[d].n; }
        g.setdata(i, val[t]);
    }
    return total;
}
template <size_t D> static double at(const axis_t* ax, const double* val, const size_t* i) { size_t o = 0; for (size_t d = 0; d < D; ++d) o = o * ax[d].n + i[d]; return val[o]; }
// the blend of the corners of a cell: linear (1) or nearest (0) in each dimension; skip >= 0: difference quotient in that dimension
template <size_t D> static double blend(const axis_t* ax, const double* val, const size_t* k, const double* loc, const int* type, int diff) {
    double s = 0;
    for (size_t c = 0; c < (1u << D); ++c) {
        double w = 1; size_t i[D];
        for (size_t d = 0; d < D; ++d) {
            bool hi = (c >> d) & 1; i[d] = k[d] + hi; if (i[d] >= ax[d].n) { w = 0; i[d] = k[d]; continue; }
            if (ax[d].n == 1) { if (hi || diff == (int)d) w = 0; continue; }
            double h = ax[d].x[k[d] + 1] - ax[d].x[k[d]], u = (loc[d] - ax[d].x[k[d]]) / h;
            if (type[d]) w *= diff == (int)d ? (hi ? 1 / h : -1 / h) : hi ? u : 1 - u;
            else if (diff == (int)d) w = 0;
            else w *= (u < 0.5) == hi ? 0 : 1;
        }
        if (w != 0) s += w * at<D>(ax, val, i);
    }
    return s;
}
