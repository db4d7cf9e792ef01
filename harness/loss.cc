// Attenuation, ambient noise, reflection loss and scattering strength models.
#include <usml/ocean/ambient_constant.h>
#include <usml/ocean/ambient_wenz.h>
#include <usml/ocean/attenuation_constant.h>
#include <usml/ocean/attenuation_thorp.h>
#include <usml/ocean/reflect_loss_beckmann.h>
#include <usml/ocean/reflect_loss_constant.h>
#include <usml/ocean/reflect_loss_eckart.h>
#include <usml/ocean/reflect_loss_rayleigh.h>
#include <usml/ocean/reflect_loss_rayleigh_grid.h>
#include <usml/ocean/scattering_chapman.h>
#include <usml/ocean/scattering_constant.h>
#include <usml/ocean/scattering_lambert.h>
#include <usml/ocean/volume_flat.h>
#include <usml/ocean/wave_height_pierson.h>
#include <usml/types/gen_grid.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>
using namespace usml::types;
using namespace usml::ocean;
typedef boost::numeric::ublas::vector<double> vec;
typedef boost::numeric::ublas::matrix<double> mat;
typedef boost::numeric::ublas::matrix<vec> mvec;
typedef std::complex<double> cpx;

static const double PI = 3.14159265358979323846;
static double dB(double x) { return 10.0 * log10(x); }
static double undB(double x) { return pow(10.0, 0.1 * x); }

static seq_vector::csptr freqs(double* f, size_t n, double lo, double hi) {
    f[0] = vp_real("freq", lo, hi);
    for (size_t i = 1; i < n; ++i) f[i] = f[i - 1] + vp_real("df", 0.5, (hi - lo) / (double)n);
    return seq_vector::csptr(new seq_data(f, n));
}
static void fill(wposition* p) {
    for (size_t r = 0; r < p->size1(); ++r)
        for (size_t c = 0; c < p->size2(); ++c) {
            p->altitude(r, c, vp_real("alt", -6000.0, 0.0));
            p->theta(r, c, vp_real("theta", 0.5, 2.5));
            p->phi(r, c, vp_real("phi", -3.0, 3.0));
        }
}
static wposition1 anywhere() {
    return wposition1(vp_real("lat", -80, 80), vp_real("lng", -180, 180), vp_real("alt", -6000, 0));
}

static void attenuation_check() {
    const size_t n = 2; double f[n];
    seq_vector::csptr fs = freqs(f, n, 10.0, 1e5);
    wposition pos(2, 2); fill(&pos);
    mat dist(2, 2);
    for (size_t r = 0; r < 2; ++r) for (size_t c = 0; c < 2; ++c) dist(r, c) = vp_real("dist", 0.0, 1e5);
    mvec out(2, 2), out2(2, 2);
    for (size_t r = 0; r < 2; ++r) for (size_t c = 0; c < 2; ++c) { out(r, c) = vec(n); out2(r, c) = vec(n); }
    double k = vp_real("coeff", 0.0, 1.0);
    attenuation_thorp th; attenuation_constant co(k);
    const attenuation_model& m1 = th; const attenuation_model& m2 = co;
    m1.attenuation(pos, fs, dist, &out);
    m2.attenuation(pos, fs, dist, &out2);
    for (size_t r = 0; r < 2; ++r) for (size_t c = 0; c < 2; ++c) {
        vp_assert(out(r, c).size() == n, "one loss per frequency");
        for (size_t i = 0; i < n; ++i) {
            double F2 = (f[i] / 1000) * (f[i] / 1000);
            double perkm = 0.0033 + F2 * (3.0e-4 + 44.0 / (4100.0 + F2) + 0.11 / (1.0 + F2));
            double depth = -pos.altitude(r, c);
            double e = perkm / 1000.0 * dist(r, c) * (1 - 5.88264e-6 * depth) / (1 - 5.88264e-6 * 1000.0);
            vp_eq(out(r, c)(i), e, "Thorp attenuation");
            vp_le(0.0, out(r, c)(i), "Thorp attenuation is never a gain");
            vp_eq(out2(r, c)(i), k * dist(r, c) * f[i], "constant attenuation");
        }
    }
}

static void ambient_check() {
    const size_t n = vp_param("nf", 2); double f[4];
    seq_vector::csptr fs = freqs(f, n, 1.0, 2e4);
    long ship = vp_choice("shipping", 0, 8), rain = vp_choice("rain", 0, 4);
    double wind = vp_choice("wind?", 0, 1) ? vp_real("wind", 0.0, 40.0) : -1.0;
    ambient_wenz m(wind, (int)ship, (int)rain);
    const ambient_model& a = m;
    vec out(n);
    a.ambient(anywhere(), fs, &out);
    vp_assert(out.size() == n, "one level per frequency");
    for (size_t i = 0; i < n; ++i) {
        double L = log10(f[i]), none = undB(-300.0), e = 0;
        e += undB(107.0 - 30.0 * L);
        e += undB(-75.0 + 20.0 * L);
        double d = L - log10(30.0);
        e += ship >= 1 && ship <= 7 ? undB(76.0 - 20.0 * d * d + 5.0 * ((double)ship - 4.0)) : none;
        double kn = wind / 0.51444444;
        if (wind < 0) e += none;
        else if (f[i] < 1000) e += undB(44.0 + sqrt(21.0 * kn) + 17.0 * (3.0 - L) * (L - 2.0));
        else e += undB(95.0 + sqrt(21.0 * kn) - 17.0 * L);
        if (rain < 1 || rain > 3 || f[i] < 550.0 || f[i] > 15500.0) e += none;
        else if (rain == 1) e += undB(64.942 + 19.917 * L - 5.242 * L * L);
        else if (rain == 2) e += undB(19.628 + 42.933 * L - 7.516 * L * L);
        else e += undB(222.491 - 135.904 * L + 43.893 * L * L - 4.737 * L * L * L);
        vp_eq(out(i), e, "Wenz noise is the power sum of its components");
    }
    if (ship == 0 && rain == 0 && wind < 0) {
        double lv = vp_real("level", -50.0, 150.0);
        ambient_constant c(lv);
        const ambient_model& b = c;
        vec o2(n);
        b.ambient(anywhere(), fs, &o2);
        vp_assert(o2.size() == n, "one level per frequency");
        for (size_t i = 0; i < n; ++i) vp_eq(o2(i), undB(lv), "constant noise level");
    }
}

static void surface_check() {
    const size_t n = 2; double f[n];
    seq_vector::csptr fs = freqs(f, n, 10.0, 1e5);
    double wind = vp_real("wind", 0.0, 30.0);
    double g = vp_real("grazing", 0.001, 1.5707963);
    vec amp(n), ph(n), amp2(n), amp3(n), ph3(n);
    reflect_loss_eckart ek(wind);
    const reflect_loss_model& m = ek;
    m.reflect_loss(anywhere(), fs, g, &amp, &ph);
    double s = sin(g);
    for (size_t i = 0; i < n; ++i) {
        vp_eq(amp(i), 8.6e-9 * f[i] * f[i] * wind * wind * wind * wind * s * s, "Eckart reflection loss");
        vp_eq(ph(i), PI, "surface phase change");
    }
    double a = vp_real("amplitude", 0.0, 50.0), p = vp_real("phase", -4.0, 4.0);
    reflect_loss_constant rc(a, p);
    const reflect_loss_model& m3 = rc;
    m3.reflect_loss(anywhere(), fs, g, &amp3, &ph3);
    m3.reflect_loss(anywhere(), fs, g, &amp2, nullptr);
    for (size_t i = 0; i < n; ++i) {
        vp_eq(amp3(i), a, "constant reflection loss");
        vp_eq(amp2(i), a, "constant reflection loss");
        vp_eq(ph3(i), p, "constant phase");
    }
}

static void beckmann_check() {
    const size_t n = 2; double f[n];
    seq_vector::csptr fs = freqs(f, n, 10.0, 1e5);
    double wind = vp_real("wind", 0.0, 30.0);
    double g = vp_real("grazing", 0.001, 1.5707963);
    bool neg = vp_choice("negative", 0, 1);
    vec amp(n), ph(n);
    reflect_loss_beckmann bm(wind);
    const reflect_loss_model& m2 = bm;
    m2.reflect_loss(anywhere(), fs, neg ? -g : g, &amp, &ph);
    double s = sin(g);
    vp_assume(s > 0 && s <= 1);
    double at2 = g * g / (0.006 + 10.2e-3 * wind);
    double q = 1.0 - exp(-at2 / 4.0) / sqrt(PI * at2);
    double v3 = s * (vp_split(q > 0.5) ? q : 0.5);
    if (vp_split(v3 > 0.99)) v3 = 0.99;
    double rough = sqrt(1.0 - v3);
    for (size_t i = 0; i < n; ++i) {
        double low = 0.3 + 0.7 / (1.0 + 6.0e-11 * wind * wind * wind * wind * f[i] * f[i]);
        vp_eq(amp(i), -20.0 * log10(rough * low), "Beckmann reflection loss");
        vp_eq(ph(i), PI, "surface phase change");
        vp_le(low, 1.0, "low frequency factor at most one");
        vp_le(rough, 1.0, "roughness factor at most one");
        vp_assume(rough * low <= 1.0);
        vp_le(0.0, amp(i), "reflection never amplifies");
    }
}

// Rayleigh: R from acoustic impedances
static cpx rayleigh(double rho, double nu, double att, double nus, double atts, double g) {
    const double K = 1.0 / (20.0 * 0.43429448190325182765 * 2 * PI);
    att *= K; atts *= K;
    double s = sin(0.5 * PI - g), w = cos(0.5 * PI - g);     // sine and cosine of the incidence angle
    rho *= 1000.0; nu *= 1500.0; nus *= 1500.0;
    cpx cb(nu, -att * nu);
    cpx sinb = s * cb / 1500.0;
    cpx cosb = sqrt(1.0 - sinb * sinb);
    cpx Zb = cosb / (cb * rho);
    double Zw = w / (1500.0 * 1000.0);
    if (nus != 0.0 || atts != 0.0) {
        cpx cs(nus, -atts * nus);
        cpx sina = s * cs / 1500.0;
        cpx coss = sqrt(1.0 - sina * sina);
        cpx Zs = cs * rho / coss;
        cpx sins = sqrt(1.0 - coss * coss);
        cpx c2 = 2.0 * coss * coss - 1.0, s2 = 2.0 * sins * coss;
        Zb = 1.0 / ((1.0 / Zb) * c2 * c2 + Zs * s2 * s2);
    }
    return (Zb - Zw) / (Zb + Zw);
}

static void rayleigh_check() {
    double f[2]; const size_t n = 2;
    seq_vector::csptr fs = freqs(f, n, 10.0, 1e5);
    long kind = vp_param("sub", 0);
    vec amp(n), ph(n), amp2(n);
    double g = vp_real("grazing", 0.01, 1.55);
    double rho = 1, nu = 1, att = 0, nus = 0, atts = 0;
    if (kind == 0) {            // loss free fluid
        rho = vp_real("density", 1.01, 4.0); nu = vp_real("speed", 0.5, 4.0);
        reflect_loss_rayleigh r(rho, nu);
        const reflect_loss_model& m = r;
        m.reflect_loss(anywhere(), fs, g, &amp, nullptr);
        double s = cos(g), w = sin(g);
        vp_assume(w > 0.005 && s > 0.005);
        double t = 1.0 - nu * nu * s * s;
        if (vp_split(t < 0)) {
            for (size_t i = 0; i < n; ++i) vp_eq(amp(i), 0.0, "total reflection below the critical angle");
        } else {
            double zb = sqrt(t) / (rho * nu);
            vp_assume(zb - w > 1e-4 || w - zb > 1e-4);
            double R = (zb - w) / (zb + w);
            for (size_t i = 0; i < n; ++i) {
                vp_eq(amp(i), -20.0 * log10(fabs(R)), "Rayleigh reflection loss");
                vp_le(0.0, amp(i), "reflection never amplifies");
            }
        }
        return;
    }
    if (kind == 1) {            // attenuating fluid
        rho = vp_real("density", 1.01, 4.0); nu = vp_real("speed", 0.5, 4.0); att = vp_real("att", 0.05, 2.0);
    } else if (kind == 2) {     // attenuating solid
        rho = vp_real("density", 1.01, 4.0); nu = vp_real("speed", 0.5, 4.0); att = vp_real("att", 0.05, 2.0);
        nus = vp_real("shear", 0.1, 2.0); atts = vp_real("shear att", 0.05, 2.0);
    } else {                    // bottom types
        static const double T[8][5] = {{1.5, 1.00, 0.2, 0.00, 1.0}, {1.7, 1.05, 1.0, 0.00, 1.5}, {1.9, 1.10, 0.8, 0.00, 2.5},
            {2.0, 1.20, 0.6, 0.00, 1.5}, {2.1, 1.30, 0.4, 0.40, 1.0}, {2.2, 1.60, 0.2, 0.67, 0.5},
            {2.4, 2.00, 0.1, 1.00, 0.2}, {2.7, 3.50, 0.1, 1.67, 0.2}};
        long t = vp_choice("type", 0, 7);
        const double* q = T[t];
        reflect_loss_rayleigh a((size_t)t), b((bottom_type_enum)t), c(q[0], q[1], q[2], q[3], q[4]);
        for (const reflect_loss_rayleigh* x : {&a, &b}) {
            vp_eq(x->_density_bottom, c._density_bottom, "bottom type density");
            vp_eq(x->_speed_bottom, c._speed_bottom, "bottom type speed");
            vp_eq(x->_att_bottom, c._att_bottom, "bottom type attenuation");
            vp_eq(x->_speed_shear, c._speed_shear, "bottom type shear speed");
            vp_eq(x->_att_shear, c._att_shear, "bottom type shear attenuation");
        }
        vp_eq(c._att_bottom * 20.0 * 0.43429448190325182765 * 2 * PI, q[2], "attenuation in dB per wavelength");
        return;
    }
    reflect_loss_rayleigh r(rho, nu, att, nus, atts);
    const reflect_loss_model& m = r;
    m.reflect_loss(anywhere(), fs, g, &amp, &ph);
    m.reflect_loss(anywhere(), fs, g, &amp2, nullptr);
    cpx R = rayleigh(rho, nu, att, nus, atts, g);
    for (size_t i = 0; i < n; ++i) {
        vp_eq(amp(i), -20.0 * log10(abs(R)), "Rayleigh reflection loss");
        if (kind == 1) vp_eq(ph(i), arg(R), "Rayleigh phase");
        vp_eq(amp2(i), amp(i), "phase output does not change the loss");
        if (kind == 1 && vp_param("passive", 0)) vp_le(0.0, amp(i), "reflection never amplifies");
    }
}

static void rayleigh_grid_check() {
    double f[1] = {100.0};
    seq_vector::csptr fs(new seq_linear(100.0, 1.0, 1));
    seq_vector::csptr ax[2];
    ax[0].reset(new seq_linear(10.0, 1.0, 3));
    ax[1].reset(new seq_linear(20.0, 2.0, 2));
    gen_grid<2>* g = new gen_grid<2>(ax);
    long type[3][2]; size_t ij[2];
    for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 2; ++j) {
        type[i][j] = (long)((i * 2 + j + (size_t)vp_choice("shift", 0, 0)) % 4);   // fluid types
        ij[0] = i; ij[1] = j;
        g->setdata(ij, (double)type[i][j]);
    }
    data_grid<2>::sptr gp(g);
    reflect_loss_rayleigh_grid m(gp);
    double lat = vp_real("lat", 8.0, 14.0), lng = vp_real("lng", 18.0, 24.0);
    size_t bi = vp_split(lat < 10.5) ? 0 : vp_split(lat < 11.5) ? 1 : 2;
    size_t bj = vp_split(lng < 21.0) ? 0 : 1;
    vp_assume(fabs(lat - 10.5) > 0.001 && fabs(lat - 11.5) > 0.001 && fabs(lng - 21.0) > 0.001);
    vec amp(1), ph(1), amp2(1), ph2(1);
    wposition1 p(lat, lng, 0.0);
    m.reflect_loss(p, fs, 0.5, &amp, &ph);
    reflect_loss_rayleigh r((size_t)type[bi][bj]);
    r.reflect_loss(p, fs, 0.5, &amp2, &ph2);
    vp_eq(amp(0), amp2(0), "bottom type of the nearest grid point is used");
    vp_eq(ph(0), ph2(0), "bottom type of the nearest grid point is used");
}

static void scatter_check() {
    const size_t n = 2; double f[n];
    seq_vector::csptr fs = freqs(f, n, 10.0, 1e5);
    double dei = vp_real("de_i", 0.01, 1.5), azi = vp_real("az_i", -3.0, 3.0);
    wposition pos(1, 2); fill(&pos);
    mat des(1, 2), azs(1, 2);
    for (size_t c = 0; c < 2; ++c) { des(0, c) = vp_real("de_s", 0.01, 1.5); azs(0, c) = vp_real("az_s", -3.0, 3.0); }
    mvec out(1, 2);
    for (size_t c = 0; c < 2; ++c) out(0, c) = vec(n);
    double wind = vp_real("wind", 0.5, 30.0), bss = vp_real("bss", -60.0, 0.0);
    long kind = vp_param("sub", 0);
    scattering_model::csptr m;
    if (kind == 0) m.reset(new scattering_chapman(wind));
    if (kind == 1) m.reset(new scattering_lambert(bss));
    if (kind == 2) m.reset(new scattering_constant(bss));
    if (kind == 3) { volume_flat* v = new volume_flat(vp_real("depth", 0.0, 5000.0), 10.0, bss); m = v->_scattering; delete v; }
    m->scattering(pos, fs, dei, des, azi, azs, &out);
    for (size_t c = 0; c < 2; ++c) {
        vec o(n);
        m->scattering(wposition1(pos, 0, c), fs, dei, des(0, c), azi, azs(0, c), &o);
        for (size_t i = 0; i < n; ++i) {
            double e;
            if (kind == 0) {
                double gr = 0.5 * (dei + des(0, c)) * 180.0 / PI;
                double beta = 158.0 * pow(wind * 1.94384449 * pow(f[i], 1.0 / 3.0), -0.58);
                e = undB(3.3 * beta * log10(gr / 30.0 + 1e-6) - 42.4 * log10(beta) + 2.6);
            } else if (kind == 1) {
                e = undB(bss) * fabs(sin(dei) * sin(des(0, c)));
            } else e = undB(bss);
            vp_eq(o(i), e, "scattering strength formula");
            vp_eq(out(0, c)(i), e, "matrix form agrees");
            vp_le(0.0, o(i), "scattering strength is not negative");
        }
    }
}

static void volume_check() {
    double d = vp_real("depth", -5000.0, 5000.0), t = vp_real("thick", 0.0, 500.0), amp = vp_real("amp", -100.0, 0.0);
    volume_flat v(d, t, amp);
    const volume_model& m = v;
    wposition pos(1, 2); fill(&pos);
    mat rho(1, 2), th(1, 2);
    double r1, t1;
    m.depth(pos, &rho, &th);
    m.depth(wposition1(pos, 0, 1), &r1, &t1);
    double e = wposition::earth_radius - fabs(d);
    for (size_t c = 0; c < 2; ++c) { vp_eq(rho(0, c), e, "layer depth"); vp_eq(th(0, c), t, "layer thickness"); }
    vp_eq(r1, e, "layer depth"); vp_eq(t1, t, "layer thickness");
    double w = vp_real("wind", 0.0, 50.0);
    vp_eq(wave_height_pierson(w), 0.22 * w * w / 9.8 / 4.0, "RMS wave height");
}

extern "C" void h_main() {
    switch (vp_param("kind", 0)) {
    case 0: attenuation_check(); break;
    case 1: ambient_check(); break;
    case 2: surface_check(); break;
    case 3: beckmann_check(); break;
    case 4: rayleigh_check(); break;
    case 5: rayleigh_grid_check(); break;
    case 6: scatter_check(); break;
    case 7: volume_check(); break;
    }
}
