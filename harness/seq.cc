// Sequences: element values, increments, bounded access, index lookup.
#include <usml/types/seq_augment.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>
#include <usml/types/seq_log.h>
#include <usml/types/seq_rayfan.h>
#include <usml/types/seq_vector.h>
using namespace usml::types;

// everything that holds for any sequence, given the expected elements
static void check(const seq_vector& s, const double* e, size_t n, double v) {
    vp_assert(s.size() == n, "size");
    for (size_t i = 0; i < n; ++i) {
        vp_eq(s[i], e[i], "element value");
        vp_eq(s(i), e[i], "element value (bounded access)");
        if (i + 1 < n) vp_eq(s.increment(i), e[i + 1] - e[i], "increment");
    }
    vp_eq(s(n), e[n - 1], "access beyond end clamps");
    vp_eq(s(n + 7), e[n - 1], "access beyond end clamps");
    vp_eq(s.increment(n + 3), s.increment(n - 1), "increment beyond end clamps");
    size_t cnt = 0;
    for (double x : s) { if (cnt < n) vp_eq(x, e[cnt], "iteration order"); ++cnt; }
    vp_assert(cnt == n, "iteration covers every element");
    size_t k = s.find_index(v);
    if (n < 2) { vp_assert(k == 0, "single element index"); return; }
    vp_assert(k <= n - 2, "index leaves a right neighbour");
    if (k > n - 2) return;
    bool up = e[1] > e[0];
    double lo = up ? e[0] : e[n - 1], hi = up ? e[n - 1] : e[0];
    if (up) {
        if (v >= lo && v < hi) { vp_le(s[k], v, "index brackets value"); vp_le(v, s[k + 1], "index brackets value"); }
    } else {
        if (v > lo && v <= hi) { vp_le(v, s[k], "index brackets value"); vp_le(s[k + 1], v, "index brackets value"); }
    }
    if (up ? v < lo : v > hi) vp_assert(k == 0, "outside value gives first interval");
    if (up ? v > hi : v < lo) vp_assert(k == n - 2, "outside value gives last interval");
    size_t m = s.find_nearest(v);
    vp_assert(m < n, "nearest in range");
    if (m >= n) return;
    for (size_t i = 0; i < n; ++i)
        vp_le(fabs(s[m] - v), fabs(s[i] - v), "nearest element is closest");
}

extern "C" void h_main() {
    long kind = vp_param("kind", 0);
    long N = vp_param("n", 4);
    double e[16];
    if (kind == 0) {          // linear, first/increment/size
        double a = vp_real("first", -1e4, 1e4);
        double sgn = vp_choice("sign", 0, 1) ? 1.0 : -1.0;
        double d = sgn * vp_real("step", 1e-3, 1e3);
        double v = vp_real("value", -1e5, 1e5);
        size_t n = vp_choice("n", 2, N);
        for (size_t i = 0; i < n; ++i) e[i] = a + d * (double)i;
        if (vp_choice("ctor", 0, 1)) { seq_linear s(a, d, (int)n); check(s, e, n, v); }
        else { seq_linear s(a, a + d * (double)(n - 1), n, true); check(s, e, n, v); }
    } else if (kind == 1) {   // linear, first/increment/last
        double a = vp_real("first", -1e3, 1e3);
        double sgn = vp_choice("sign", 0, 1) ? 1.0 : -1.0;
        double d = sgn * vp_real("step", 1e-2, 1e2);
        double x = vp_real("len", 0.0, (double)N - 1.2);
        // stay off the 10 % rounding slop documented for the end point
        double last = a + d * x;
        seq_linear s(a, d, last);
        size_t n = s.size();
        vp_assert(n >= 1, "at least one element");
        for (size_t i = 0; i < n; ++i) vp_eq(s[i], a + d * (double)i, "element value");
        vp_le((double)n - 1.0, x + 0.1, "does not run past the last value");
        vp_le(x + 0.1, (double)n, "does not stop short of the last value");
        vp_eq(s(n + 3), a + d * (double)(n - 1), "access beyond end clamps");
    } else if (kind == 2) {   // log
        double a = vp_real("first", 1e-2, 1e4);
        double r = vp_choice("sign", 0, 1) ? vp_real("ratio", 1.01, 20.0) : 1 / vp_real("ratio", 1.01, 20.0);
        double v = vp_real("value", 1e-4, 1e8);
        size_t n = vp_choice("n", 1, N);
        vp_domain(0);
        for (size_t i = 0; i < n; ++i) vp_observe("log of element", log(a * pow(r, (int)i)));
        vp_observe("log of value", log(v));
        vp_domain(1);
        double x = a;
        for (size_t i = 0; i < n; ++i) { e[i] = x; x *= r; }
        if (n == 1) { seq_log s(a, r, (int)1); vp_assert(s.size() == 1, "size"); vp_eq(s[0], a, "element value");
                      vp_assert(s.find_index(v) == 0, "single element index"); return; }
        seq_log s(a, r, (int)n);
        check(s, e, n, v);
    } else if (kind == 3) {   // arbitrary monotonic data
        size_t n = vp_choice("n", 2, N);
        double sgn = vp_choice("sign", 0, 1) ? 1.0 : -1.0;
        e[0] = vp_real("x", -1e4, 1e4);
        for (size_t i = 1; i < n; ++i) e[i] = e[i - 1] + sgn * vp_real("dx", 1e-3, 1e3);
        double v = vp_real("value", -1e5, 1e5);
        seq_data s(e, n);
        check(s, e, n, v);
    } else if (kind == 4) {   // non-monotonic data is refused, monotonic accepted
        size_t n = vp_choice("n", 3, N);
        e[0] = vp_real("x", -1e3, 1e3);
        bool up = true, down = true;
        for (size_t i = 1; i < n; ++i) {
            double d = vp_real("dx", -10.0, 10.0);
            e[i] = e[i - 1] + d;
            if (!vp_split(d > 0)) up = false;
            if (!vp_split(d < 0)) down = false;
        }
        bool thrown = false;
        try { seq_data s(e, n); } catch (std::invalid_argument&) { thrown = true; }
        vp_assert(thrown == !(up || down), "exactly the non-monotonic series are refused");
    } else if (kind == 5) {   // ray fan: uniform in arctangent around a center
        size_t n = vp_choice("n", 2, N);
        double c = vp_real("center", -45.0, 45.0), sp = vp_real("spread", 0.5, 20.0);
        double a = vp_real("first", -90.0, 0.0), b = vp_real("last", 1.0, 90.0);
        bool swap = vp_choice("swap", 0, 1);
        seq_rayfan s(swap ? b : a, swap ? a : b, n, c, sp);
        vp_assert(s.size() == n, "size");
        vp_eq(s[0], a, "fan starts at the smaller limit");
        vp_eq(s[n - 1], b, "fan ends at the larger limit");
        double t0 = atan((a - c) / sp), t1 = atan((b - c) / sp);
        for (size_t i = 0; i < n; ++i)
            vp_eq(s[i], c + sp * tan(t0 + (t1 - t0) / double(n - 1) * (double)i), "fan is uniform in arctangent");
    }
}
