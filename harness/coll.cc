// Collections of eigenrays: filing, totals, dead reckoning.
#include <usml/eigenrays/eigenray_collection.h>
#include <usml/eigenrays/eigenray_notifier.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>
using namespace usml::types; using namespace usml::ocean; using namespace usml::eigenrays;
typedef boost::numeric::ublas::matrix<double> mat; typedef boost::numeric::ublas::vector<double> vec;
static const double PI = 3.14159265358979323846;
static seq_vector::csptr freqs(size_t n) { double f[2] = {100.0, 250.0}; return seq_vector::csptr(new seq_data(f, n)); }
static eigenray_model* ray(size_t n, int which) {
    eigenray_model* r = new eigenray_model(); r->intensity.resize(n); r->phase.resize(n);
    r->surface = which + 1; r->bottom = which + 11; r->caustic = which + 21; r->upper = which + 31; r->lower = which + 41;
    return r;
}
static wposition targets(size_t n1, size_t n2) { wposition t(n1, n2); for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) { t.latitude(i, j, 10.0 + i); t.longitude(i, j, 20.0 + j); t.altitude(i, j, -100.0 - i - j); } return t; }
// ---- rays are kept for the target they are added to, in the order they came
static void filing() {
    const size_t n1 = 2, n2 = 2; seq_vector::csptr f = freqs(1); boost::numeric::ublas::matrix<uint64_t> id(n1, n2); bool ids = vp_choice("ids", 0, 1);
    for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) id(i, j) = 100 + 10 * i + j;
    wposition1 src(1.0, 2.0, -30.0); wposition tg = targets(n1, n2); bool coh = vp_choice("coherent", 0, 1);
    eigenray_collection c = ids ? eigenray_collection(f, src, tg, 77, id, coh) : eigenray_collection(f, src, tg, 77, boost::numeric::ublas::matrix<uint64_t>(), coh);
    vp_assert(c.size1() == n1 && c.size2() == n2 && c.sourceID() == 77 && c.coherent() == coh && c.frequencies() == f, "what it was built with");
    const int N = 3; eigenray_model::csptr r[N]; size_t at[N]; double t[N]; const int num = (int)vp_choice("rays", 0, N);
    for (int k = 0; k < num; ++k) { at[k] = (size_t)vp_choice("target", 0, 3); eigenray_model* m = ray(1, k); m->travel_time = t[k] = vp_real("time", 0.01, 100); r[k] = eigenray_model::csptr(m); eigenray_listener& l = c; l.add_eigenray(at[k] / 2, at[k] % 2, r[k], 5); }
    for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) {
        const eigenray_list& l = c.eigenrays(i, j); eigenray_list::const_iterator it = l.begin(); double first = 0;
        for (int k = 0; k < num; ++k) if (at[k] == 2 * i + j) { vp_assert(it != l.end() && *it == r[k], "the rays of the target, in order"); ++it; if (first == 0 || t[k] < first) first = t[k]; }
        vp_assert(it == l.end(), "no other rays"); vp_eq(c.initial_time(i, j), first, "fastest ray of the target");
        vp_assert(c.targetID(i, j) == (ids ? id(i, j) : 0), "identification of the target"); wposition1 p = c.position(i, j); vp_eq(p.latitude(), 10.0 + i, "position of the target"); vp_eq(p.longitude(), 20.0 + j, "position of the target");
        if (ids) { vp_assert(c.find_eigenrays(id(i, j)) == l, "rays found by target"); vp_eq(c.find_initial_time(id(i, j)), first, "time found by target"); }
    }
    vp_assert(c.find_eigenrays(0) == c.eigenrays(0, 0), "zero stands for the first target"); vp_assert(c.find_eigenrays(999).empty() && (!ids || c.find_initial_time(999) == 0), "nothing for an unknown target");
}
// ---- totals
static void totals() {
    bool coh = vp_param("coherent", 1); const int num = (int)vp_param("rays", 2); const size_t nf = (size_t)vp_param("nf", 1); seq_vector::csptr f = freqs(nf);
    wposition tg = targets(1, 2); eigenray_collection c(f, wposition1(), tg, 0, boost::numeric::ublas::matrix<uint64_t>(), coh);
    double a[3][2], ph[3][2], t[3], sd[3], sa[3], td[3], ta[3];
    for (int k = 0; k < num; ++k) {
        eigenray_model* m = ray(nf, k); m->travel_time = t[k] = vp_real("time", 0.01, 100); m->source_de = sd[k] = vp_real("source de", -90, 90); m->target_de = td[k] = vp_real("target de", -90, 90);
        // seen through half angles to keep the trigonometry rational
        m->source_az = sa[k] = vp_real("source az", -179, 179); m->target_az = ta[k] = vp_real("target az", -179, 179);
        for (size_t i = 0; i < nf; ++i) { m->intensity(i) = vp_real("loss", 20, 140); m->phase(i) = ph[k][i] = vp_real("phase", -7, 7); a[k][i] = pow(10.0, m->intensity(i) / -20.0); }
        c.add_eigenray(0, 1, eigenray_model::csptr(m));
    }
    if (num > 1) { if (vp_split(a[0][0] < a[1][0])) vp_assume(a[0][0] < a[1][0] * (1 - 1e-6)); else vp_assume(a[0][0] > a[1][0] * (1 + 1e-6)); }
    double w = 0, st = 0, ssd = 0, sx = 0, sy = 0, std_ = 0, tx = 0, ty = 0, best = 0; int who = -1; vec re(nf), im(nf);
    for (size_t i = 0; i < nf; ++i) { re(i) = im(i) = 0;
        for (int k = 0; k < num; ++k) {
            double p = a[k][i] * a[k][i], arg = 2 * PI * (*f)(i) * t[k] + ph[k][i];
            if (coh) { arg = fmod(arg, 2 * PI); re(i) += a[k][i] * cos(arg); im(i) += a[k][i] * sin(arg); } else re(i) += p;
            w += p; st += p * t[k]; ssd += p * sd[k]; std_ += p * td[k]; sx += p * sin(sa[k] * PI / 180); sy += p * cos(sa[k] * PI / 180); tx += p * sin(ta[k] * PI / 180); ty += p * cos(ta[k] * PI / 180);
            if (p > best) { best = p; who = k; }
        } }
    double mag[2]; for (size_t i = 0; i < nf; ++i) { mag[i] = coh ? sqrt(re(i) * re(i) + im(i) * im(i)) : sqrt(re(i)); vp_assume(mag[i] > 1e-12); }
    c.sum_eigenrays();
    const eigenray_model& e = c.total(0, 1);
    for (size_t i = 0; i < nf; ++i) {
        double m = mag[i];
        vp_eq_scale(e.intensity(i), -20 * log10(m), 20, coh ? "coherent total adds complex pressures" : "incoherent total adds intensities");
        if (coh) vp_eq(e.phase(i), atan2(im(i), re(i)), "phase of the coherent total"); else vp_eq(e.phase(i), 0, "incoherent total has no phase");
    }
    vp_eq(e.travel_time, st / w, "travel time weighted by intensity"); vp_eq_scale(e.source_de, ssd / w, 90, "launch D/E weighted by intensity"); vp_eq_scale(e.target_de, std_ / w, 90, "arrival D/E weighted by intensity");
    if (vp_param("az", 1)) { vp_eq_scale(e.source_az, 90 - 180 / PI * atan2(sy, sx), 180, "launch azimuth weighted by intensity"); vp_eq_scale(e.target_az, 90 - 180 / PI * atan2(ty, tx), 180, "arrival azimuth weighted by intensity"); }
    vp_assert(e.surface == who + 1 && e.bottom == who + 11 && e.caustic == who + 21 && e.upper == who + 31 && e.lower == who + 41, "counts of the strongest ray");
    const eigenray_model& z = c.total(0, 0); for (size_t i = 0; i < nf; ++i) vp_eq(z.intensity(i), 300, "no rays: nothing arrives");
    vp_assert(z.surface == -1 && z.bottom == -1 && z.caustic == -1 && z.upper == -1 && z.lower == -1, "no rays: counts are -1");
}
// ---- dead reckoning
struct ocean_t : public profile_model {
    double c, k; ocean_t(double a, double b) : c(a), k(b) {}
    void sound_speed(const wposition&, mat* s, wvector* = nullptr) const override { for (size_t i = 0; i < s->size1(); ++i) for (size_t j = 0; j < s->size2(); ++j) (*s)(i, j) = c; }
    void attenuation(const wposition&, const seq_vector::csptr& f, const mat& d, boost::numeric::ublas::matrix<vec>* a) const override { for (size_t i = 0; i < d.size1(); ++i) for (size_t j = 0; j < d.size2(); ++j) for (size_t n = 0; n < f->size(); ++n) (*a)(i, j)(n) = k * d(i, j) * (double)(n + 1); }
};
static double dot(double de, double az, const double* d) { double r = PI / 180; return d[0] * sin(de * r) - d[1] * cos(de * r) * cos(az * r) + d[2] * cos(de * r) * sin(az * r); }
static void reckon() {
    int move = (int)vp_param("move", 1); const size_t nf = 2; seq_vector::csptr f = freqs(nf); double c = (move & 3) == 3 ? 1500.0 : vp_real("c", 1400, 1600), k = vp_real("attenuation", 0, 1e-3); profile_model::csptr prof(new ocean_t(c, k));
    wposition1 p[2]; double d[2][3] = {{0, 0, 0}, {0, 0, 0}}; wposition1 q[2];
    for (int s = 0; s < 2; ++s) {
        double th = s ? 1.2 : 1.7, st = sin(th); p[s].altitude(-vp_real("depth", 10, 4000)); p[s].theta(th); p[s].phi(vp_real("lng", -3, 3)); q[s] = p[s]; double rho = p[s].rho();
        if (move & (1 << s)) { for (int n = 0; n < 3; ++n) d[s][n] = vp_real("move", -200, 200); vp_assume(d[s][0] > 0.01 || d[s][0] < -0.01 || d[s][1] > 0.01 || d[s][1] < -0.01 || d[s][2] > 0.01 || d[s][2] < -0.01);
            q[s].rho(rho + d[s][0]); q[s].theta(th + d[s][1] / rho); q[s].phi(p[s].phi() + d[s][2] / (rho * st)); }
        else if (move & (4 << s)) for (int n = 0; n < 3; ++n) { double tiny = vp_real("tiny", -5e-4, 5e-4); if (n == 0) q[s].rho(rho + tiny); else if (n == 1) q[s].theta(th + tiny / rho); else q[s].phi(p[s].phi() + tiny / (rho * st)); }
    }
    wposition tg(1, 1); tg.rho(0, 0, p[1].rho()); tg.theta(0, 0, p[1].theta()); tg.phi(0, 0, p[1].phi());
    eigenray_collection col(f, p[0], tg); eigenray_model* m = ray(nf, 3); m->frequencies = f;
    m->travel_time = vp_real("time", 1, 100); m->source_de = vp_real("source de", -80, 80); m->source_az = vp_real("source az", -179, 179); m->target_de = vp_real("target de", -80, 80); m->target_az = vp_real("target az", -179, 179);
    for (size_t i = 0; i < nf; ++i) { m->intensity(i) = vp_real("loss", 20, 140); m->phase(i) = vp_real("phase", -7, 7); }
    eigenray_model::csptr r(m); col.add_eigenray(0, 0, r);
    double r1 = m->travel_time * c, r2 = r1 - dot(m->source_de, m->source_az, d[0]) + dot(m->target_de, m->target_az, d[1]), r12 = r1 - dot(m->source_de, m->source_az, d[0]);   // the source moves towards the target when it moves along the ray
    double t1 = m->travel_time - dot(m->source_de, m->source_az, d[0]) / c; vp_assume(r1 > 10); vp_assume(r12 > 10); vp_assume(r2 > 10); vp_assume(t1 * c > 10); vp_assume(t1 * c + dot(m->target_de, m->target_az, d[1]) > 10);
    eigenray_list l = col.dead_reckon(0, 0, q[0], q[1], prof);
    vp_assert(l.size() == 1, "one ray for each ray"); const eigenray_model& e = **l.begin();
    vp_eq_scale(e.travel_time, r2 / c, 0.1, "travel time changes with the motion along the ray");
    for (size_t i = 0; i < nf; ++i) { vp_eq_scale(e.intensity(i), m->intensity(i) + 20 * log10(r2) - 20 * log10(r1) + k * (double)(i + 1) * (r2 - r1), 20, "spreading and attenuation along the new path"); vp_eq(e.phase(i), m->phase(i), "phase is kept"); }
    vp_assert(e.surface == m->surface && e.bottom == m->bottom && e.caustic == m->caustic && e.upper == m->upper && e.lower == m->lower && e.frequencies == f, "counts are kept");
    vp_eq(e.source_de, m->source_de, "angles are kept"); vp_eq(e.source_az, m->source_az, "angles are kept"); vp_eq(e.target_de, m->target_de, "angles are kept"); vp_eq(e.target_az, m->target_az, "angles are kept");
    if ((move & 3) == 0) vp_assert(*l.begin() == r, "nothing moved: the same ray");
    else vp_assert(*l.begin() != r && *col.eigenrays(0, 0).begin() == r, "the collection is not changed");
}
void h_main() {
    wposition::compute_earth_radius(30.0);
    switch (vp_param("kind", 0)) { case 0: filing(); break; case 1: totals(); break; case 2: reckon(); break; }
}
