// Sound speed profiles, boundary heights and normals, and the ocean that owns them.
#include <usml/ocean/boundary_flat.h>
#include <usml/ocean/boundary_grid.h>
#include <usml/ocean/boundary_slope.h>
#include <usml/ocean/ocean_model.h>
#include <usml/ocean/ocean_shared.h>
#include <usml/ocean/ocean_utils.h>
#include <usml/ocean/volume_flat.h>
#include <usml/ocean/data_grid_mackenzie.h>
#include <usml/ocean/profile_catenary.h>
#include <usml/ocean/profile_grid.h>
#include <usml/ocean/profile_linear.h>
#include <usml/ocean/profile_munk.h>
#include <usml/ocean/profile_n2.h>
#include <usml/types/data_grid.h>
#include <usml/types/gen_grid.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>
using namespace usml::types; using namespace usml::ocean;
typedef boost::numeric::ublas::matrix<double> mat;
static const size_t R = 1, C = 2;
static double ER() { return wposition::earth_radius; }
static double alt_[2], th_[2], ph_[2];
static void where(wposition* p, double lo = -6000, double hi = 0) {
    for (size_t c = 0; c < C; ++c) {
        alt_[c] = vp_real("alt", lo, hi); th_[c] = vp_real("theta", 0.5, 2.5); ph_[c] = vp_real("phi", -3, 3);
        p->altitude(0, c, alt_[c]); p->theta(0, c, th_[c]); p->phi(0, c, ph_[c]);
    }
}
// what a profile reports, against the speed and slope of the reference at each point
typedef void (*ref_t)(const void* ctx, size_t c, double* speed, double* slope);
static void compare(profile_model& m, const void* ctx, ref_t ref, double lo = -6000, double hi = 0) {
    bool flat = vp_choice("flat earth", 0, 1); m.flat_earth(flat);
    wposition pos(R, C); where(&pos, lo, hi);
    mat s(R, C), s0(R, C); wvector g(R, C);
    for (size_t c = 0; c < C; ++c) { g.rho(0, c, 17); g.theta(0, c, 18); g.phi(0, c, 19); }   // stale values
    const profile_model& p = m;
    p.sound_speed(pos, &s, &g); p.sound_speed(pos, &s0, nullptr);
    for (size_t c = 0; c < C; ++c) {
        double e, d; ref(ctx, c, &e, &d);
        if (flat) { double f = (ER() + alt_[c]) / ER(); d = d * f + e / ER(); e *= f; }
        vp_eq_scale(s(0, c), e, 1500, "sound speed"); vp_eq_scale(g.rho(0, c), d, 0.1, "gradient is the slope of the sound speed");
        vp_eq(s0(0, c), s(0, c), "same speed without gradient");
        vp_assert(g.theta(0, c) == 0 && g.phi(0, c) == 0, "no horizontal gradient");
    }
}
struct lin_t { double c0, g0, z1, g1; };
static void lin_ref(const void* v, size_t c, double* s, double* d) {
    const lin_t* q = (const lin_t*)v; double z = -alt_[c];
    if (z < q->z1) { *s = q->c0 + q->g0 * z; *d = -q->g0; } else { *s = q->c0 + q->g0 * q->z1 + q->g1 * (z - q->z1); *d = -q->g1; }
}
static void linear() {
    lin_t q; q.c0 = vp_real("c0", 1400, 1600); q.g0 = q.g1 = 0; q.z1 = 0; int n = (int)vp_choice("layers", 0, 2);
    if (n > 0) q.g0 = q.g1 = vp_real("g0", -0.1, 0.1);
    if (n > 1) { q.z1 = vp_real("z1", 0, 3000); q.g1 = vp_real("g1", -0.1, 0.1); }
    profile_linear m0(q.c0), m1(q.c0, q.g0), m2(q.c0, q.g0, q.z1, q.g1);
    compare(n == 0 ? m0 : n == 1 ? m1 : m2, &q, lin_ref);
}
struct munk_t { double z1, b, c1, e; };
static void munk_ref(const void* v, size_t c, double* s, double* d) {
    const munk_t* q = (const munk_t*)v; double x = 2 * (-alt_[c] - q->z1) / q->b, ex = exp(-x);
    *s = q->c1 * (1 + q->e * (x - 1 + ex)); *d = -q->c1 * q->e * (1 - ex) * 2 / q->b;
}
static void munk() {
    munk_t q = {1300, 1300, 1500, 7.37e-3};
    if (vp_choice("defaults", 0, 1)) { profile_munk m; compare(m, &q, munk_ref); return; }
    q.z1 = vp_real("z1", 100, 3000); q.b = vp_real("scale", 500, 3000); q.c1 = vp_real("c1", 1400, 1600); q.e = vp_real("eps", 0, 0.02);
    profile_munk m(q.z1, q.b, q.c1, q.e); compare(m, &q, munk_ref);
}
struct n2_t { double c0, g0; };
static void n2_ref(const void* v, size_t c, double* s, double* d) {
    const n2_t* q = (const n2_t*)v; double u = 1 + 2 * q->g0 / q->c0 * -alt_[c], r = sqrt(u);
    *s = q->c0 / r; *d = q->g0 / (u * r);
}
static void n2() {
    n2_t q = {vp_real("c0", 1400, 1600), vp_real("g0", -0.05, 0.05)};
    profile_n2 m(q.c0, q.g0); compare(m, &q, n2_ref);
}
struct cat_t { double c1, g1, z1; };
static void cat_ref(const void* v, size_t c, double* s, double* d) {
    const cat_t* q = (const cat_t*)v; double x = (-alt_[c] - q->z1) / q->g1;
    *s = q->c1 * cosh(x); *d = -q->c1 / q->g1 * sinh(x);
}
static void catenary() {
    cat_t q = {vp_real("c1", 1400, 1600), vp_real("g1", 5000, 50000), vp_real("z1", 0, 4000)};
    profile_catenary m(q.c1, q.g1, q.z1); compare(m, &q, cat_ref);
}
// a field known in closed form, in place of a table: a + b x + c x y + d x z + e y + f z
template <size_t D> struct field_t : public gen_grid<D> {
    double k[6];
    field_t(seq_vector::csptr s[], double a, double scale) : gen_grid<D>(s) {
        k[0] = a; static const char* n[] = {"", "kx", "kxy", "kxz", "ky", "kz"};
        for (int i = 1; i < 6; ++i) k[i] = vp_real(n[i], -scale, scale);
        if (D < 3) k[3] = k[5] = 0; if (D < 2) k[2] = k[4] = 0;
    }
    double at(const double* q, double* d) const {
        double x = q[0], y = D > 1 ? q[1] : 0, z = D > 2 ? q[2] : 0;
        if (d) { d[0] = k[1] + k[2] * y + k[3] * z; if (D > 1) d[1] = k[2] * x + k[4]; if (D > 2) d[2] = k[3] * x + k[5]; }
        return k[0] + k[1] * x + k[2] * x * y + k[3] * x * z + k[4] * y + k[5] * z;
    }
    double interpolate(const double* q, double* d = nullptr) const override { return at(q, d); }
};
template <size_t D> static void grid_profile() {
    seq_vector::csptr s[D]; for (size_t d = 0; d < D; ++d) s[d] = seq_vector::csptr(new seq_linear(0.0, 1.0, (size_t)2));
    field_t<D>* f = new field_t<D>(s, vp_real("a", 1400, 1600), 1e-5); typename data_grid<D>::csptr h(f);
    profile_grid<D> m(h); bool flat = vp_choice("flat earth", 0, 1); m.flat_earth(flat);
    wposition pos(R, C); where(&pos); mat sp(R, C), s0(R, C); wvector g(R, C);
    for (size_t c = 0; c < C; ++c) { g.rho(0, c, 17); g.theta(0, c, 18); g.phi(0, c, 19); }
    const profile_model& p = m; p.sound_speed(pos, &sp, &g); p.sound_speed(pos, &s0);
    for (size_t c = 0; c < C; ++c) {
        double q[3] = {pos.rho(0, c), th_[c], ph_[c]}, d[3] = {0, 0, 0}, e = f->at(q, d);
        if (flat) { double w = (ER() + alt_[c]) / ER(); d[0] = d[0] * w + e / ER(); d[1] *= w; d[2] *= w; e *= w; }
        vp_eq_scale(sp(0, c), e, 1500, "sound speed of the table"); vp_eq(s0(0, c), sp(0, c), "same speed without gradient");
        vp_eq_scale(g.rho(0, c), d[0], 1e-3, "gradient with altitude"); vp_eq_scale(g.theta(0, c), d[1], 10, "gradient with colatitude"); vp_eq_scale(g.phi(0, c), d[2], 10, "gradient with longitude");
    }
}
static void mackenzie() {
    seq_vector::csptr s[3]; double r0 = -vp_real("depth", 0, 5000), dr = vp_real("dz", 1, 500);
    s[0] = seq_vector::csptr(new seq_linear(ER() + r0, dr, (size_t)2)); s[1] = seq_vector::csptr(new seq_linear(1.0, 0.1, (size_t)1)); s[2] = seq_vector::csptr(new seq_linear(1.0, 0.1, (size_t)2));
    gen_grid<3>* t = new gen_grid<3>(s); gen_grid<3>* u = new gen_grid<3>(s); data_grid<3>::csptr tp(t), up(u); double T[4], S[4];
    size_t i[3] = {0, 0, 0}; int n = 0;
    t->interp_type(0, interp_enum::linear); t->interp_type(1, interp_enum::linear); t->interp_type(2, interp_enum::nearest); t->edge_limit(1, false); t->edge_limit(2, true);
    for (i[0] = 0; i[0] < 2; ++i[0]) for (i[2] = 0; i[2] < 2; ++i[2], ++n) { T[n] = vp_real("T", -2, 30); S[n] = vp_real("S", 25, 40); t->setdata(i, T[n]); u->setdata(i, S[n]); }
    data_grid_mackenzie m(tp, up); n = 0;
    for (int d = 0; d < 3; ++d) { vp_assert(m.interp_type(d) == t->interp_type(d) && m.edge_limit(d) == t->edge_limit(d), "settings of the temperature grid"); vp_assert(m.axis(d).size() == t->axis(d).size() && m.axis(d)[0] == t->axis(d)[0], "axes of the temperature grid"); }
    for (i[0] = 0; i[0] < 2; ++i[0]) for (i[2] = 0; i[2] < 2; ++i[2], ++n) {
        double D = -(r0 + dr * (double)i[0]), q = T[n];
        vp_eq_scale(m.data(i), 1448.96 + 4.591 * q - 0.05304 * q * q + 2.374e-4 * q * q * q + 1.34 * (S[n] - 35) + 0.0163 * D + 1.675e-7 * D * D - 0.01025 * q * (S[n] - 35) - 7.139e-13 * q * D * D * D, 1500, "Mackenzie sound speed");
    }
}
// ---- boundaries
static void check_normal(const boundary_model& m, const wposition& pos, const double* h, const double* nr, const double* nt, const double* np, bool unit = true) {
    mat rho(R, C), rho2(R, C); wvector n(R, C); for (size_t c = 0; c < C; ++c) { n.rho(0, c, 5); n.theta(0, c, 5); n.phi(0, c, 5); }
    m.height(pos, &rho, &n); m.height(pos, &rho2);
    for (size_t c = 0; c < C; ++c) {
        wposition1 p1; p1.rho(pos.rho(0, c)); p1.theta(pos.theta(0, c)); p1.phi(pos.phi(0, c)); wvector1 n1; double r1, r2; n1.rho(5); n1.theta(5); n1.phi(5);
        m.height(p1, &r1, &n1); m.height(p1, &r2);
        vp_eq_scale(rho(0, c), h[c], 1000, "height"); vp_eq(r1, rho(0, c), "same height at one location"); vp_eq(r2, r1, "same height without normal"); vp_eq(rho2(0, c), r1, "same height without normal, many");
        vp_eq(n.rho(0, c), nr[c], "normal, up"); vp_eq(n.theta(0, c), nt[c], "normal, south"); vp_eq(n.phi(0, c), np[c], "normal, east");
        vp_eq(n1.rho(), nr[c], "normal at one location, up"); vp_eq(n1.theta(), nt[c], "normal at one location, south"); vp_eq(n1.phi(), np[c], "normal at one location, east");
        if (unit) vp_eq(n.rho(0, c) * n.rho(0, c) + n.theta(0, c) * n.theta(0, c) + n.phi(0, c) * n.phi(0, c), 1, "unit length");
    }
}
static void flat() {
    double d = vp_choice("surface", 0, 1) ? 0.0 : vp_real("depth", 1, 6000), sg = vp_choice("sign", 0, 1) ? -1.0 : 1.0;
    boundary_flat b(sg * d); const boundary_model& m = b; wposition pos(R, C); where(&pos);
    double h[2], nr[2], z[2] = {0, 0}; for (size_t c = 0; c < C; ++c) { h[c] = ER() - d; nr[c] = d == 0 ? -1 : 1; }
    check_normal(m, pos, h, nr, z, z);
    seq_vector::csptr f(new seq_linear(vp_real("f", 10, 1e4), 100.0, (size_t)2)); boost::numeric::ublas::vector<double> a(2), ph(2); a(0) = a(1) = ph(0) = ph(1) = 7;
    m.reflect_loss(wposition1(), f, vp_real("angle", 0.01, 1.5), &a, &ph);
    for (size_t i = 0; i < 2; ++i) { vp_eq(a(i), 0, "no loss unless a model is given"); vp_assert(fabs(ph(i) - (d == 0 ? 3.14159265358979 : 0)) < 1e-9, "the surface reverses the phase"); }
}
static double hold[3];
static boundary_slope* make_slope(double la, double lo, double de, double s1, double s2) {
    wposition1 ref(la, lo, -17.0); hold[0] = ref.theta(); hold[1] = ref.phi(); hold[2] = sin(ref.theta());
    return new boundary_slope(ref, de, s1, s2);   // the location goes out of scope here
}
static void scribble() { volatile double junk[64]; for (int i = 0; i < 64; ++i) junk[i] = 1e3 + i; (void)junk; }
static void slope() {
    // any slope within 68 degrees, given by its sine
    int dir = (int)vp_param("dir", 0); double sa = dir != 1 ? vp_real("lat slope sine", -0.93, 0.93) : 0, sb = dir != 0 ? vp_real("lng slope sine", -0.93, 0.93) : 0;
    if (dir == 2) vp_assume(sa > -0.65 && sa < 0.65 && sb > -0.65 && sb < 0.65);
    double a = dir != 1 ? asin(sa) : 0, b = dir != 0 ? asin(sb) : 0;
    double d = vp_real("depth", 10, 6000);
    boundary_slope* p = make_slope(vp_real("lat", -60, 60), vp_real("lng", -180, 180), d, a, b); scribble();
    wposition pos(R, C);
    for (size_t c = 0; c < C; ++c) { pos.altitude(0, c, vp_real("alt", -6000, 0)); pos.theta(0, c, hold[0] + vp_real("dtheta", -0.05, 0.05)); pos.phi(0, c, hold[1] + vp_real("dphi", -0.05, 0.05)); }
    double h[2], nr[2], nt[2], np[2], ta = sa / sqrt(1 - sa * sa), tb = sb / sqrt(1 - sb * sb);
    for (size_t c = 0; c < C; ++c) {
        h[c] = (ER() - d) * (1 - ta * (pos.theta(0, c) - hold[0])) * (1 + hold[2] * tb * (pos.phi(0, c) - hold[1]));
        nt[c] = sa; np[c] = -sb; nr[c] = sqrt(1 - sa * sa - sb * sb);
    }
    check_normal(*p, pos, h, nr, nt, np);
    // at the reference, moving along a slope in one direction is orthogonal to the normal: slopes are dh/dtheta/h = -tan(a), dh/dphi/(h sin) = tan(b)
    if (dir == 0) vp_eq(nr[0] * -ta + nt[0], 0, "orthogonal to the slope");
    if (dir == 1) vp_eq(nr[0] * tb + np[0], 0, "orthogonal to the slope");
}
template <size_t D> static void grid_boundary() {
    seq_vector::csptr s[2]; for (size_t d = 0; d < D; ++d) s[d] = seq_vector::csptr(new seq_linear(0.0, 1.0, (size_t)2));
    field_t<D>* f = new field_t<D>(s, ER() - vp_real("depth", 100, 6000), 5000); typename data_grid<D>::csptr hp(f);
    boundary_grid<D> b(hp); wposition pos(R, C); where(&pos);
    double h[2], nr[2], nt[2], np[2];
    for (size_t c = 0; c < C; ++c) {
        double q[2] = {th_[c], ph_[c]}, d[2] = {0, 0}; h[c] = f->at(q, d); double t = d[0] / h[c], p = D > 1 ? d[1] / (h[c] * sin(th_[c])) : 0, n = sqrt(1 + t * t + p * p);
        nr[c] = 1 / n; nt[c] = -t / n; np[c] = -p / n;   // the gradient of rho - h(theta, phi), scaled to unit length
    }
    check_normal(b, pos, h, nr, nt, np, false);
}
// ---- the ocean and the shared ocean
struct call_t { int n; int id; double x[8]; const void* f; const void* a; } last;
struct loss_mock : public reflect_loss_model { int id; loss_mock(int i) : id(i) {}
    void reflect_loss(const wposition1& l, const seq_vector::csptr& f, double g, boost::numeric::ublas::vector<double>* a, boost::numeric::ublas::vector<double>* p) const override { last.n++; last.id = id; last.x[0] = l.rho(); last.x[1] = g; last.f = f.get(); last.a = a; (*a)(0) = id; if (p) (*p)(0) = -id; } };
struct scat_mock : public scattering_model { int id; scat_mock(int i) : id(i) {}
    void scattering(const wposition1& l, const seq_vector::csptr& f, double di, double ds, double ai, double as, boost::numeric::ublas::vector<double>* a) const override { last.n++; last.id = id; last.x[0] = l.rho(); last.x[1] = di; last.x[2] = ds; last.x[3] = ai; last.x[4] = as; last.f = f.get(); last.a = a; (*a)(0) = id; }
    void scattering(const wposition& l, const seq_vector::csptr& f, double di, mat ds, double ai, mat as, boost::numeric::ublas::matrix<boost::numeric::ublas::vector<double> >* a) const override { last.n++; last.id = id + 100; last.x[0] = l.rho(0, 0); last.x[1] = di; last.x[2] = ds(0, 0); last.x[3] = ai; last.x[4] = as(0, 0); last.f = f.get(); last.a = a; } };
static void delegation() {
    seq_vector::csptr f(new seq_linear(1000.0, 100.0, (size_t)1)); boost::numeric::ublas::vector<double> a(1), p(1);
    wposition1 at(0, 0, vp_real("alt", -5000, 0)); double x[8] = {at.rho()}; for (int i = 1; i < 5; ++i) x[i] = vp_real("angle", -7, 7);
    boundary_model *sf = new boundary_flat(0.0, nullptr, scattering_model::csptr(new scat_mock(1))), *bt = new boundary_flat(3000.0, reflect_loss_model::csptr(new loss_mock(9)), scattering_model::csptr(new scat_mock(0)));
    boundary_model::csptr surface(sf), bottom(bt); profile_model::csptr prof(new profile_linear(1500.0));
    std::vector<volume_model::csptr> vols; volume_model* vm[3];
    for (int v = 0; v < 3; ++v) { vm[v] = new volume_flat(100.0 * (v + 1), 10.0, scattering_model::csptr(new scat_mock(10 + v))); if (v < 2) vols.push_back(volume_model::csptr(vm[v])); }
    int how = (int)vp_choice("volume layers", 0, 3); ocean_model o = how == 0 ? ocean_model(surface, bottom, prof) : ocean_model(surface, bottom, prof, &vols);
    size_t nv = how == 0 ? 0 : 2; if (how >= 2) { o.add_volume(volume_model::csptr(vm[2])); nv = 3; }
    const ocean_model& c = o;
    vp_assert(c.surface() == surface && c.bottom() == bottom && c.profile() == prof && c.num_volume() == nv, "the models it was given");
    for (size_t v = 0; v < nv; ++v) vp_assert(c.volume(v).get() == vm[v], "the layers it was given, in order");
    if (how == 3) { sf->scattering(scattering_model::csptr(new scat_mock(51))); bt->reflect_loss(reflect_loss_model::csptr(new loss_mock(59))); vm[1]->scattering(scattering_model::csptr(new scat_mock(61))); }
    size_t i = (size_t)vp_choice("interface", 0, 7); last.n = 0; bool hit = i < 2 || (i - 2) / 2 < nv;
    if (hit) {
        c.scattering(i, at, f, x[1], x[2], x[3], x[4], &a);
        int id = i == 0 ? 0 : i == 1 ? (how == 3 ? 51 : 1) : i - 2 < 2 || i - 2 > 3 || how < 3 ? (int)(10 + (i - 2) / 2) : 61;
        vp_assert(last.n == 1 && last.id == id && a(0) == id && last.f == f.get() && last.a == &a, "scattering comes from the model of the interface");
        for (int k = 0; k < 5; ++k) vp_eq(last.x[k], x[k], "scattering arguments reach the model");
        mat ds(1, 1), as(1, 1); ds(0, 0) = x[2]; as(0, 0) = x[4]; wposition w(1, 1); w.rho(0, 0, x[0]); boost::numeric::ublas::matrix<boost::numeric::ublas::vector<double> > ma(1, 1); last.n = 0;
        const scattering_model* sm = i == 0 ? (scattering_model*)bt : i == 1 ? (scattering_model*)sf : (scattering_model*)vm[(i - 2) / 2];
        sm->scattering(w, f, x[1], ds, x[3], as, &ma); vp_assert(last.n == 1 && last.id == id + 100 && last.f == f.get() && last.a == &ma, "same model for many locations");
        for (int k = 0; k < 5; ++k) vp_eq(last.x[k], x[k], "scattering arguments reach the model");
    }
    last.n = 0; c.bottom()->reflect_loss(at, f, x[1], &a, &p); int id = how == 3 ? 59 : 9;
    vp_assert(last.n == 1 && last.id == id && last.f == f.get() && last.a == &a && p(0) == -id, "reflection loss comes from the model of the bottom"); vp_eq(last.x[0], x[0], "location of the reflection"); vp_eq(last.x[1], x[1], "grazing angle of the reflection");
    double d, t, d2; const volume_model& vv = *vm[1]; vv.depth(at, &d, &t); vv.depth(at, &d2); vp_eq(d, ER() - 200, "depth of a layer"); vp_eq(d2, d, "depth of a layer"); vp_eq(t, 10, "thickness of a layer");
    wposition w(1, 2); mat md(1, 2), mt(1, 2); vv.depth(w, &md, &mt); for (int k = 0; k < 2; ++k) { vp_eq(md(0, k), d, "depth at many locations"); vp_eq(mt(0, k), t, "thickness at many locations"); }
}
static void shared() {
    ocean_model::csptr o[3]; boundary_model::csptr b(new boundary_flat()); profile_model::csptr p(new profile_linear(1500.0));
    for (int i = 1; i < 3; ++i) o[i] = ocean_model::csptr(new ocean_model(b, b, p));
    vp_assert(ocean_shared::current() == nullptr, "no ocean to begin with"); int cur = 0;
    for (int step = 0; step < 4; ++step) {
        long op = vp_choice("operation", 0, 3);
        if (op == 0) { ocean_shared::reset(); cur = 0; } else if (op < 3) { ocean_shared::update(o[op]); cur = (int)op; } else { ocean_shared::update(ocean_model::csptr()); cur = 0; }
        vp_assert(ocean_shared::current() == o[cur], "the last ocean that was set"); vp_assert(vp_locks_held() == 0, "no lock is held");
        for (int i = 1; i < 3; ++i) vp_assert(o[i].use_count() == (i == cur ? 2 : 1), "the shared ocean keeps the current model alive, and no other");
    }
    ocean_shared::reset();
}
static void iso() {
    double depth = vp_real("depth", 1, 8000), loss = vp_real("loss", 0, 30); ocean_utils::make_iso(depth, loss);
    ocean_model::csptr o = ocean_shared::current(); vp_assert(o != nullptr && o->num_volume() == 0, "make_iso sets the shared ocean");
    wposition1 at(vp_real("lat", -60, 60), vp_real("lng", -180, 180), vp_real("alt", -8000, 0)); double h; wvector1 n;
    o->surface()->height(at, &h, &n); vp_eq(h, ER(), "surface height"); vp_eq(n.rho(), -1, "surface normal");
    o->bottom()->height(at, &h, &n); vp_eq(h, ER() - depth, "bottom height"); vp_eq(n.rho(), 1, "bottom normal");
    seq_vector::csptr f(new seq_linear(vp_real("freq", 10, 1e5), 100.0, (size_t)1)); boost::numeric::ublas::vector<double> a(1), p(1);
    o->surface()->reflect_loss(at, f, 0.3, &a, &p); vp_eq(a(0), 0, "lossless surface"); vp_assert(fabs(p(0) - 3.14159265358979) < 1e-9, "the surface reverses the phase");
    o->bottom()->reflect_loss(at, f, 0.3, &a, &p); vp_eq(a(0), loss, "bottom loss"); vp_eq(p(0), 0, "bottom phase");
    for (size_t i = 0; i < 2; ++i) { o->scattering(i, at, f, 0.1, 0.2, 0.3, 0.4, &a); vp_eq(a(0), 1e-3, "scattering strength -30 dB"); }
    wposition pos(1, 2); where(&pos); mat s(1, 2), dist(1, 2); wvector g(1, 2); o->profile()->sound_speed(pos, &s, &g);
    boost::numeric::ublas::matrix<boost::numeric::ublas::vector<double> > at2(1, 2); dist(0, 0) = dist(0, 1) = vp_real("dist", 0, 1e5); at2(0, 0) = at2(0, 1) = boost::numeric::ublas::vector<double>(1); o->profile()->attenuation(pos, f, dist, &at2);
    for (size_t c = 0; c < 2; ++c) { vp_eq(s(0, c), 1500, "sound speed"); vp_eq(g.rho(0, c), 0, "no gradient"); vp_eq(at2(0, c)(0), 0, "no attenuation"); }
    vp_assert(vp_locks_held() == 0, "no lock is held");
}
void h_main() {
    wposition::compute_earth_radius(30.0);
    switch (vp_param("kind", 0)) {
        case 0: linear(); break; case 1: munk(); break; case 2: n2(); break; case 3: catenary(); break;
        case 4: grid_profile<1>(); break; case 5: grid_profile<2>(); break; case 6: grid_profile<3>(); break; case 7: mackenzie(); break;
        case 10: flat(); break; case 11: slope(); break; case 12: grid_boundary<1>(); break; case 13: grid_boundary<2>(); break;
        case 20: delegation(); break; case 21: shared(); break; case 22: iso(); break;
    }
}
