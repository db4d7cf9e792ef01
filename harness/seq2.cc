// Sequence factories: build_best, clip, seq_augment, iterators, comparison.
#include <usml/types/seq_augment.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>
#include <usml/types/seq_log.h>
#include <usml/types/seq_rayfan.h>
#include <usml/types/seq_vector.h>
using namespace usml::types;

static void same(const seq_vector& s, const double* e, size_t n, const char* id) {
    vp_assert(s.size() == n, "size");
    if (s.size() != n) return;
    for (size_t i = 0; i < n; ++i) {
        double inc = fabs(i ? e[i] - e[i - 1] : e[1] - e[0]);
        if (n == 1) inc = 0;
        vp_le(fabs(s[i] - e[i]), 0.0100001 * inc, id);
    }
}
static void find(const seq_vector& s, const double* e, size_t n, double v) {
    size_t k = s.find_index(v);
    vp_assert(k + 2 <= n, "index leaves a right neighbour");
    if (k + 2 > n) return;
    double lo = fmin(s[k], s[k + 1]), hi = fmax(s[k], s[k + 1]);
    double l = fmin(s[0], s[n - 1]), h = fmax(s[0], s[n - 1]);
    if (v >= l && v <= h) { vp_le(lo, v, "index brackets value"); vp_le(v, hi, "index brackets value"); }
}

extern "C" void h_main() {
    long kind = vp_param("kind", 0);
    size_t N = vp_param("n", 3);
    double e[16];
    if (kind == 0 || kind == 1) {   // build_best: any strictly monotonic data
        size_t n = kind == 0 ? vp_choice("n", 1, N) : N;
        double sgn = vp_choice("sign", 0, 1) ? 1.0 : -1.0;
        double base = kind == 0 ? vp_real("x", -1e3, 1e3) : (double)vp_choice("x", -1, 1);
        e[0] = base;
        for (size_t i = 1; i < n; ++i) e[i] = e[i - 1] + sgn * vp_real("dx", 1e-1, 1e2);
        seq_vector::csptr s = seq_vector::build_best(e, n);
        same(*s, e, n, "built sequence reproduces the data");
    } else if (kind == 2) {         // build_best on exactly regular data
        size_t n = vp_choice("n", 2, N);
        double a = vp_real("first", -1e3, 1e3);
        double d = vp_real("step", 0.1, 10.0) * (vp_choice("sign", 0, 1) ? 1.0 : -1.0);
        for (size_t i = 0; i < n; ++i) e[i] = a + d * (double)i;
        std::vector<double> v(e, e + n);
        seq_vector::csptr s = seq_vector::build_best(v);
        same(*s, e, n, "built sequence reproduces linear data");
        for (size_t i = 0; i < n; ++i) vp_eq((*s)[i], e[i], "regular data is reproduced exactly");
    } else if (kind == 3) {         // clip
        size_t n = N;
        double sgn = vp_choice("sign", 0, 1) ? 1.0 : -1.0;
        e[0] = vp_real("x", -1e2, 1e2);
        double step = vp_real("step", 1.0, 10.0);
        bool reg = vp_choice("regular", 0, 1);
        for (size_t i = 1; i < n; ++i) e[i] = e[i - 1] + sgn * (reg ? step : step * (1.0 + 0.5 * (double)(i % 2)));
        double lo = vp_real("lo", -200, 200), len = vp_real("len", 0, 100), hi = lo + len;
        double out[16]; size_t m = 0;
        for (size_t i = 0; i < n; ++i) if (vp_split(e[i] >= lo && e[i] <= hi)) out[m++] = e[i];
        vp_assume(m > 0);
        seq_vector::csptr s;
        if (reg) { seq_linear src(e[0], sgn * step, (int)n); s = src.clip(lo, hi); }
        else { seq_data src(e, n); s = src.clip(lo, hi); }
        same(*s, out, m, "clip keeps exactly the elements in range");
    } else if (kind == 4) {         // augment
        size_t n = vp_choice("n", 4, N), extra = 2 * vp_choice("pairs", 1, 2);
        double a = vp_real("first", -1e3, 1e3), d = vp_real("step", 0.1, 10.0);
        seq_vector::csptr src(new seq_linear(a, d, (int)n));
        seq_augment s(src, extra);
        vp_assert(s.size() == n + extra, "augmented size");
        vp_eq(s[0], a, "same first value");
        vp_eq(s[s.size() - 1], (*src)[n - 1], "same last value");
        for (size_t i = 0; i + 1 < s.size(); ++i) {
            vp_le(s[i] + d * 0.01, s[i + 1], "strictly increasing");
            vp_eq(s.increment(i), s[i + 1] - s[i], "increment");
        }
        for (size_t j = 0; j < n; ++j) {
            double best = 1e9;
            for (size_t i = 0; i < s.size(); ++i) best = fmin(best, fabs(s[i] - (*src)[j]));
            vp_eq(best, 0.0, "original elements are kept");
        }
        find(s, e, s.size(), vp_real("value", -2e3, 2e3));
    } else if (kind == 5) {         // comparison, reverse iteration
        size_t n = N;
        double a = vp_real("first", -10, 10), b = vp_real("other", -10, 10), d = vp_real("step", 0.1, 10.0);
        seq_linear s(a, d, (int)n), t(b, d, (int)n), u(a, d, (int)n + 1);
        vp_assert((s == t) == (a == b), "equality compares elements");
        vp_assert((s != t) == !(a == b), "inequality is the opposite");
        vp_assert(!(s == u), "different sizes are unequal");
        size_t k = 0;
        for (auto i = s.rbegin(); i != s.rend(); ++i) { if (k < n) vp_eq(*i, s[n - 1 - k], "reverse order"); ++k; if (k > n) break; }
        vp_assert(k == n, "reverse iteration covers every element");
    }
}
