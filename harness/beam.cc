// Beam patterns against their formulas.
#include <usml/beampatterns/bp_arb.h>
#include <usml/beampatterns/bp_cardioid.h>
#include <usml/beampatterns/bp_gaussian.h>
#include <usml/beampatterns/bp_grid.h>
#include <usml/beampatterns/bp_line.h>
#include <usml/beampatterns/bp_multi.h>
#include <usml/beampatterns/bp_omni.h>
#include <usml/beampatterns/bp_piston.h>
#include <usml/beampatterns/bp_planar.h>
#include <usml/beampatterns/bp_solid.h>
#include <usml/beampatterns/bp_trig.h>
#include <usml/beampatterns/beampattern_utilities.h>
#include <usml/types/gen_grid.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>
using namespace usml::types;
using namespace usml::beampatterns;
typedef boost::numeric::ublas::vector<double> vec;
typedef std::complex<double> cpx;
static const double PI = 3.14159265358979323846;
static const size_t NF = 2;
static double F[NF];
static double deg(double x) { return x * (180.0 / PI); }
static double sq(double x) { return x * x; }

static seq_vector::csptr freqs(double lo, double hi) {
    F[0] = vp_real("freq", lo, hi);
    F[1] = F[0] + vp_real("df", 1.0, hi);
    return seq_vector::csptr(new seq_data(F, NF));
}
static bvector any(const char* f, const char* r, const char* u) {
    return bvector(vp_real(f, -1, 1), vp_real(r, -1, 1), vp_real(u, -1, 1));
}
// element j of the level must be e[j]
static void expect(const vec& level, double e0, double e1, const char* id) {
    vp_assert(level.size() == NF, "one level per frequency");
    vp_eq(level(0), e0, id);
    vp_eq(level(1), e1, id);
}
static void expect(const vec& level, double e, const char* id) { expect(level, e, e, id); }
static vec start() {        // whatever the caller left in the output
    vec v(NF);
    for (size_t i = 0; i < NF; ++i) v(i) = vp_real("old", -3, 3);
    return v;
}

static void simple_check() {
    seq_vector::csptr fs = freqs(10.0, 1e4);
    bvector a = any("af", "ar", "au"), s = any("sf", "sr", "su");
    double c = vp_real("sound", 1400, 1600);
    vec v = start();
    bp_omni om;
    const bp_model* m = &om;
    m->beam_level(a, fs, &v, s, c); expect(v, 1.0, "omni level");
    v = start();
    m->directivity(fs, &v, s, c); expect(v, 1.0, "omni directivity");
    double k = vp_real("factor", 0.0, 4.0);
    bp_cardioid ca(k); m = &ca;
    m->beam_level(a, fs, &v, s, c);
    expect(v, sq((1 + k * a.front()) / (1 + k)), "cardioid level");
    vp_le(v(0), 1.0, "cardioid level at most one");
    m->directivity(fs, &v, s, c);
    expect(v, (3 + k * k) / (3 * (1 + k) * (1 + k)), "cardioid directivity");
    m->beam_level(bvector(1, 0, 0), fs, &v); expect(v, 1.0, "cardioid peaks in front");
    double nul = vp_real("null", -60.0, 60.0);
    bool sine = vp_choice("sine", 0, 1);
    bp_trig tr(sine ? bp_trig_type::sine : bp_trig_type::cosine, nul);
    m = &tr;
    double depth = pow(10.0, -fabs(nul) / 20.0);
    m->beam_level(a, fs, &v, s, c);
    expect(v, depth + (1 - depth) * sq(sine ? a.right() : a.front()), "sine/cosine level");
    m->beam_level(sine ? bvector(0, 1, 0) : bvector(1, 0, 0), fs, &v, s, c);
    expect(v, 1.0, "sine/cosine peak");
    m->directivity(fs, &v, s, c);
    expect(v, depth + (1 - depth) / 3, "sine/cosine directivity");
}

// response of N elements at phase spacing 2x, normalised to one
static double array(int n, double x) { return sq((sin(n * x) + 1e-200) / (n * sin(x) + 1e-200)); }

static void line_check() {
    seq_vector::csptr fs = freqs(10.0, 1e4);
    bvector a = any("af", "ar", "au"), s = any("sf", "sr", "su");
    double c = vp_real("sound", 1400, 1600), d = vp_real("spacing", 0.1, 5.0);
    int n = (int)vp_choice("n", 1, 4);
    bool vla = vp_choice("vla", 0, 1);
    bp_line b(n, d, vla ? VLA : HLA);
    const bp_model* m = &b;
    vec v = start();
    double x[NF];
    double dot = vla ? a.up() - s.up() : a.front() - s.front();
    for (size_t i = 0; i < NF; ++i) x[i] = PI * F[i] * d / c * dot;
    m->beam_level(a, fs, &v, s, c);
    expect(v, array(n, x[0]), array(n, x[1]), "line array level");
    m->beam_level(s, fs, &v, s, c);
    expect(v, 1.0, "line array peaks in the steered direction");
    if (n > 3) return;
    v = start();
    m->directivity(fs, &v, s, c);
    double e[NF], st = vla ? s.up() : s.front();
    for (size_t i = 0; i < NF; ++i) {
        double kd = 2 * PI * F[i] * d / c, sum = n;
        for (int p = 1; p < n; ++p)
            sum += 2.0 * (n - p) * cos(p * kd * st) * sin(p * kd) / (p * kd);
        e[i] = sum / n / n;
    }
    expect(v, e[0], e[1], "line array directivity");
}

static void planar_check() {
    seq_vector::csptr fs = freqs(10.0, 1e4);
    bvector a = any("af", "ar", "au"), s = any("sf", "sr", "su");
    double c = vp_real("sound", 1400, 1600), du = vp_real("up spacing", 0.1, 5.0), dr = vp_real("right spacing", 0.1, 5.0);
    int n = (int)vp_choice("n", 2, 3), k = (int)vp_choice("m", 2, 3);
    bool baffle = vp_choice("baffle", 0, 1);
    bp_planar b(n, du, k, dr, baffle);
    const bp_model* m = &b;
    vec v = start();
    m->beam_level(a, fs, &v, s, c);
    double e[NF];
    for (size_t i = 0; i < NF; ++i)
        e[i] = array(n, PI * F[i] * du / c * (a.up() - s.up())) * array(k, PI * F[i] * dr / c * (a.right() - s.right()));
    if (baffle && vp_split(a.front() <= 0)) expect(v, 0.0, "nothing behind a baffle");
    else expect(v, e[0], e[1], "planar array level");
    if (vp_split(s.front() > 0.01)) {
        m->beam_level(s, fs, &v, s, c);
        expect(v, 1.0, "planar array peaks in the steered direction");
        m->directivity(fs, &v, s, c);
        for (size_t i = 0; i < NF; ++i)
            e[i] = (baffle ? 0.5 : 1.0) * sq(c / F[i]) / s.front() /
                (2.0 / 3.0 * PI * PI * du * dr * sqrt((double)((n * n - 1) * (k * k - 1))));
        expect(v, e[0], e[1], "planar array directivity");
    }
}

static void piston_check() {
    seq_vector::csptr fs = freqs(10.0, 1e4);
    bvector a = any("af", "ar", "au"), s = any("sf", "sr", "su");
    double c = vp_real("sound", 1400, 1600), d = vp_real("diameter", 0.1, 5.0);
    bool baffle = vp_choice("baffle", 0, 1);
    bp_piston b(d, baffle);
    const bp_model* m = &b;
    vec v = start();
    m->beam_level(a, fs, &v, s, c);
    if (baffle && vp_split(a.front() <= 0)) expect(v, 0.0, "nothing behind a baffle");
    else {
        double e[NF];
        for (size_t i = 0; i < NF; ++i) {
            double x = PI * d * F[i] / c * sqrt(1.0 - a.front() * a.front()) + 1e-17;
            e[i] = sq(2.0 * std::cyl_bessel_j(1.0, x) / x);
        }
        expect(v, e[0], e[1], "piston level");
    }
    m->directivity(fs, &v, s, c);
    double g = (baffle ? 0.5 : 1.0) / (c * PI * d);
    expect(v, g * F[0], g * F[1], "piston directivity");
}

static void solid_check() {
    seq_vector::csptr fs = freqs(10.0, 1e4);
    bvector a = any("af", "ar", "au"), s = any("sf", "sr", "su");
    vp_assume(fabs(a.front()) > 0.01 && fabs(s.front()) > 0.01);
    double vw = vp_real("vert", 1.0, 180.0), hw = vp_real("horz", 1.0, 360.0);
    bool gauss = vp_param("sub", 0);
    bp_solid so(vw, hw); bp_gaussian ga(vw, hw);
    const bp_model* m = gauss ? (const bp_model*)&ga : &so;
    vec v = start();
    double de = fabs(deg(asin(a.up()) - asin(s.up())));
    double az = fabs(deg(atan2(a.front(), a.right()) - atan2(s.front(), s.right())));
    if (vp_split(az > 180)) az = 360 - az;
    // stay off the edges of the beam, where rounding decides
    vp_assume(fabs(de - 0.5 * vw) > 1e-6 && fabs(az - 0.5 * hw) > 1e-6);
    m->beam_level(a, fs, &v, s);
    if (gauss) {
        if (vp_split(vw >= 180)) de = 0;
        if (vp_split(hw >= 360)) az = 0;
        expect(v, exp(-0.5 * (sq(de / vw) + sq(az / hw))), "gaussian level");
        vp_le(v(0), 1.0, "gaussian level at most one");
    } else {
        bool in = vp_split(de <= 0.5 * vw) && vp_split(az <= 0.5 * hw);
        expect(v, in ? 1.0 : 0.0, "solid angle level");
    }
    m->directivity(fs, &v, s);
    double top = deg(asin(s.up())) + 0.5 * vw, bot = deg(asin(s.up())) - 0.5 * vw;
    if (vp_split(top > 90)) top = 90;
    if (vp_split(bot < -90)) bot = -90;
    expect(v, (top - bot) / 180.0 * (hw / 360.0), "solid angle directivity");
}

struct bp_any : public bp_model {     // arbitrary pattern, records its inputs
    const char* name;
    mutable bvector a, s; mutable double c; mutable int calls = 0;
    bp_any(const char* n) : name(n) {}
    void beam_level(const bvector& arrival, const seq_vector::csptr& f, vec* level,
                    const bvector& steering, double sound) const override {
        a = arrival; s = steering; c = sound; ++calls;
        for (size_t i = 0; i < f->size(); ++i) (*level)(i) = vp_uf(name, (*f)(i), arrival.front(), 0.0, 1.0);
    }
};
static void same(const bvector& a, const bvector& b) {
    vp_eq(a.front(), b.front(), "direction handed on");
    vp_eq(a.right(), b.right(), "direction handed on");
    vp_eq(a.up(), b.up(), "direction handed on");
}
static void multi_check() {
    seq_vector::csptr fs = freqs(10.0, 1e4);
    bvector a = any("af", "ar", "au"), s = any("sf", "sr", "su");
    double c = vp_real("sound", 1400, 1600);
    bp_any *p[3] = {new bp_any("p0"), new bp_any("p1"), new bp_any("p2")};
    std::list<bp_model::csptr> l;
    for (int i = 0; i < 3; ++i) l.push_back(bp_model::csptr(p[i]));
    int n = (int)vp_choice("n", 1, 3);
    while ((int)l.size() > n) { p[l.size() - 1] = nullptr; l.pop_back(); }
    bool sum = vp_choice("sum", 0, 1);
    bp_multi mu(l, sum ? bp_multi_type::sum : bp_multi_type::product);
    const bp_model* m = &mu;
    vec v = start();
    m->beam_level(a, fs, &v, s, c);
    double e[NF];
    for (size_t i = 0; i < NF; ++i) {
        e[i] = sum ? 0.0 : 1.0;
        for (int k = 0; k < n; ++k) {
            double x = vp_uf(p[k]->name, F[i], a.front(), 0.0, 1.0);
            e[i] = sum ? e[i] + x : e[i] * x;
        }
    }
    for (int k = 0; k < n; ++k) {
        vp_assert(p[k]->calls == 1, "each pattern used once");
        same(p[k]->a, a); same(p[k]->s, s); vp_eq(p[k]->c, c, "sound speed handed on");
    }
    expect(v, e[0], e[1], sum ? "sum of patterns" : "product of patterns");
    // array mounted with an orientation
    orientation o(vp_real("yaw", -180, 180), vp_real("pitch", -80, 80), vp_real("roll", -90, 90));
    m->beam_level(a, o, fs, &v, s, c);
    boost::numeric::ublas::matrix<double> R = o.rotation();
    const double x[3] = {a.front(), a.right(), a.up()};
    double y[3];
    for (int i = 0; i < 3; ++i) { y[i] = 0; for (int j = 0; j < 3; ++j) y[i] += R(i, j) * x[j]; }
    for (int k = 0; k < n; ++k) {
        vp_assert(p[k]->calls == 2, "each pattern used once");
        same(p[k]->a, bvector(y[0], y[1], y[2])); same(p[k]->s, s);
        vp_eq(p[k]->c, c, "sound speed handed on");
    }
}

static void arb_check() {
    seq_vector::csptr fs = freqs(10.0, 1e4);
    bvector a = any("af", "ar", "au"), s = any("sf", "sr", "su");
    double c = vp_real("sound", 1400, 1600);
    const int n = (int)vp_param("n", 2);
    int kind = (int)vp_choice("weights", 0, 2);
    bool baffle = vp_choice("baffle", 0, 1);
    boost::numeric::ublas::matrix<double> loc(n, 3);
    boost::numeric::ublas::vector<cpx> w(n);
    vec wr(n);
    for (int i = 0; i < n; ++i) {
        for (int k = 0; k < 3; ++k) loc(i, k) = vp_real("loc", -2, 2);
        double re = kind == 2 ? 1.0 : vp_real("w", 0.1, 2.0), im = kind == 0 ? vp_real("wi", -1.0, 1.0) : 0.0;
        w(i) = cpx(re, im); wr(i) = re;
    }
    std::unique_ptr<bp_arb> b;
    if (kind == 0) b.reset(new bp_arb(loc, w, baffle));
    if (kind == 1) b.reset(new bp_arb(loc, wr, baffle));
    if (kind == 2) b.reset(new bp_arb(loc, baffle));
    const bp_model* m = b.get();
    vec v = start();
    m->beam_level(a, fs, &v, s, c);
    if (baffle && vp_split(a.front() <= 0)) { expect(v, 0.0, "nothing behind a baffle"); return; }
    double e[NF];
    cpx tot(0, 0);
    for (int i = 0; i < n; ++i) tot += w(i);
    for (size_t j = 0; j < NF; ++j) {
        double re = 0, im = 0;
        for (int i = 0; i < n; ++i) {
            double d = (a.front() - s.front()) * loc(i, 0) + (a.right() - s.right()) * loc(i, 1) + (a.up() - s.up()) * loc(i, 2);
            double ph = 2 * PI * F[j] / c * d, C = cos(ph), S = sin(ph);
            re += w(i).real() * C + w(i).imag() * S;
            im += w(i).imag() * C - w(i).real() * S;
        }
        e[j] = (re * re + im * im) / (sq(tot.real()) + sq(tot.imag()));
    }
    expect(v, e[0], e[1], "arbitrary array level");
    if (a.front() > 0 || !baffle) {
        m->beam_level(a, fs, &v, a, c);
        expect(v, 1.0, "arbitrary array peaks in the steered direction");
    }
}

struct table : public data_grid<3> {
    table() {
        for (int i = 0; i < 3; ++i) _axis[i] = seq_vector::csptr(new seq_linear(0.0, 1.0, 2));
        _data.reset(new double[8]());
    }
    double interpolate(const double* x, double*) const override {
        return vp_uf("t0", x[0], x[1], 0.0, 1.0) + vp_uf("t1", x[1], x[2], 0.0, 1.0);
    }
};
static void grid_check() {
    seq_vector::csptr fs = freqs(10.0, 1e4);
    bvector a = any("af", "ar", "au");
    vp_assume(fabs(a.front()) > 0.01);
    data_grid<3>::csptr t(new table());
    bp_grid g(t);
    const bp_model* m = &g;
    vec v = start();
    m->beam_level(a, fs, &v);
    double de = deg(asin(a.up())), az = deg(atan2(a.right(), a.front())), e[NF];
    for (size_t i = 0; i < NF; ++i) e[i] = vp_uf("t0", F[i], de, 0.0, 1.0) + vp_uf("t1", de, az, 0.0, 1.0);
    expect(v, e[0], e[1], "table of frequency, elevation and azimuth");
}

static void layout_check() {
    boost::numeric::ublas::matrix<double> loc(1, 3);
    int nf = (int)vp_choice("front", 1, 2), nr = (int)vp_choice("right", 1, 2), nu = (int)vp_choice("up", 1, 3);
    double df = vp_real("df", 0.1, 3), dr = vp_real("dr", 0.1, 3), du = vp_real("du", 0.1, 3);
    bp_con_uniform(nf, df, nr, dr, nu, du, &loc);
    vp_assert(loc.size1() == (size_t)(nf * nr * nu) && loc.size2() == 3, "one row per element");
    size_t i = 0;
    for (int u = 0; u < nu; ++u) for (int r = 0; r < nr; ++r) for (int f = 0; f < nf; ++f, ++i) {
        vp_eq(loc(i, 0), (f - (nf - 1) / 2.0) * df, "element front location");
        vp_eq(loc(i, 1), (r - (nr - 1) / 2.0) * dr, "element right location");
        vp_eq(loc(i, 2), (u - (nu - 1) / 2.0) * du, "element up location");
    }
    vec rad(2), off(2); boost::numeric::ublas::vector<int> num(2);
    for (int k = 0; k < 2; ++k) { rad(k) = vp_real("radius", 0, 3); off(k) = vp_real("offset", -3, 3); }
    num(0) = nf; num(1) = nu;
    bp_con_ring(rad, num, off, &loc);
    vp_assert(loc.size1() == (size_t)(nf + nu) && loc.size2() == 3, "one row per element");
    i = 0;
    for (int k = 0; k < 2; ++k) for (int j = 0; j < num(k); ++j, ++i) {
        double an = off(k) - 2 * PI / num(k) * j;
        vp_eq(loc(i, 0), rad(k) * cos(an), "ring element location");
        vp_eq(loc(i, 1), rad(k) * sin(an), "ring element location");
        vp_eq(loc(i, 2), 0.0, "ring element location");
    }
}

extern "C" void h_main() {
    switch (vp_param("kind", 0)) {
    case 0: simple_check(); break;
    case 1: line_check(); break;
    case 2: planar_check(); break;
    case 3: piston_check(); break;
    case 4: solid_check(); break;
    case 5: multi_check(); break;
    case 6: arb_check(); break;
    case 7: grid_check(); break;
    case 8: layout_check(); break;
    }
}
