// Eigenrays and eigenverbs of a wave queue.
#include <usml/eigenrays/eigenray_model.h>
#include <usml/eigenverbs/eigenverb_model.h>
#include "queue_mock.h"
using namespace usml::eigenrays;
using namespace usml::eigenverbs;
typedef c_vector<double, 3> v3;
typedef c_matrix<double, 3, 3> m3;
static double quad(double c, const double g[3], const double H[3][3], double x, double y, double z) {
    double o[3] = {x, y, z}, s = c;
    for (int i = 0; i < 3; ++i) s += g[i] * o[i];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s += 0.5 * H[i][j] * o[i] * o[j];
    return s;
}
static void symmetric(double H[3][3], double lo, double hi, double off) {
    for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) H[i][j] = H[j][i] = i == j ? vp_real("H", lo, hi) : vp_real("Ho", -off, off);
}
// values of a quadratic field on the 3x3x3 neighborhood
static void sampled(double v[3][3][3], double c, const double g[3], const double H[3][3], const double d[3]) {
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) v[i][j][k] = quad(c, g, H, (i - 1) * d[0], (j - 1) * d[1], (k - 1) * d[2]);
}
static void taylor() {
    double d[3] = {vp_real("d0", 0.01, 1), vp_real("d1", 0.1, 5), vp_real("d2", 0.1, 30)}, c = vp_real("c", -1e6, 1e6), g[3], H[3][3], v[3][3][3];
    for (int i = 0; i < 3; ++i) g[i] = vp_real("g", -1e3, 1e3);
    symmetric(H, -1e3, 1e3, 1e3);
    sampled(v, c, g, H, d);
    v3 delta, G; m3 HH; double C = 0;
    for (int i = 0; i < 3; ++i) delta(i) = d[i];
    wave_queue::make_taylor_coeff(v, delta, C, G, HH);
    vp_eq(C, c, "center of the expansion");
    for (int i = 0; i < 3; ++i) vp_eq(G(i), g[i], "gradient of the expansion");
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_eq(HH(i, j), H[i][j], "second derivatives of the expansion");
}
// a target near a 3x3 fan
struct tgt {
    env e; wposition pos; mat st; wave_queue* q;
    tgt(size_t nd, size_t na, double de0, double dde, double az0, double daz, double h) : pos(1, 1, 10.0, 20.0, -100.0), st(1, 1) {
        st(0, 0) = sin(pos.theta(0, 0));
        q = queue(e, fan(de0, dde, nd), fan(az0, daz, na), h, &pos, &st);
        q->_az_boundary = false; q->_de_branch = false;
    }
};
static wave_front* front(wave_queue* q, int n) { return n == 0 ? q->_prev : n == 1 ? q->_curr : q->_next; }
static void closest() {
    tgt t(4, 4, -15, 10, 0, 10, 0.1); wave_queue* q = t.q;
    bool wrap = vp_param("wrap", 0), branch = vp_param("branch", 0);
    size_t de = 1 + (size_t)vp_param("de", 0), az = (size_t)vp_param("az", 1);
    q->_az_boundary = wrap; q->_de_branch = branch;
    long e1 = vp_param("edge", 0);
    if (e1 == 1) q->_curr->on_edge(de + 1, az) = true;
    if (e1 == 2) q->_curr->on_edge(de, wrap ? (az + 1 >= 3 ? 0 : az + 1) : az + 1) = true;
    double D[3][4][4]; int only = (int)vp_param("only", 1);
    for (int n = 0; n < 3; ++n) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
        D[n][i][j] = n == only || (i == de && j == az) ? vp_real("D", 0, 100) : 200;
        front(q, n)->distance2(0, 0)(i, j) = D[n][i][j];
    }
    double center = q->_curr->distance2(0, 0)(de, az), d2[3][3][3];
    bool got = q->is_closest_ray(0, 0, de, az, center, d2);
    bool want = true;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        size_t d = de + i - 1, a = az + j - 1;
        if (wrap) { if (az + j == 0) a = 2; else if (a >= 3) a = 0; }
        if (i == 1 && j == 1) continue;
        if (got) for (int n = 0; n < 3; ++n) vp_eq(d2[n][i][j], D[n][d][a], "neighborhood of the ray");
        if ((a == 0 && !wrap) || a == 3) continue;
        bool skip = q->_curr->on_edge(d, a) && (branch || i != 1);
        if (skip) continue;
        bool later = i == 2 || j == 2, ok;
        // of two equal neighbors, only the later one is reported; over the source, only the first azimuth
        if (later && branch) ok = az == 0 && D[1][d][a] >= center;
        else ok = later ? D[1][d][a] > center : D[1][d][a] >= center;
        want = want & ok & (D[2][d][a] > center) & (D[0][d][a] >= center);
    }
    if (got) vp_assert(want, "reported ray is closer than its neighbors");
    else vp_assert(!want, "closest ray is reported");
}
static double det3(const double H[3][3]) {
    return H[0][0] * (H[1][1] * H[2][2] - H[1][2] * H[2][1]) + H[0][1] * (H[1][2] * H[2][0] - H[1][0] * H[2][2]) + H[0][2] * (H[1][0] * H[2][1] - H[2][0] * H[1][1]);
}
// the offsets from the central ray to the target
static void offsets() {
    tgt t(3, 3, -10, 1, 0, 2, 0.1); wave_queue* q = t.q;
    double d[3] = {0.1, 1, 2}, c = vp_real("c", 0, 1e6), g[3], o[3], v[3][3][3];
    static const double HS[3][3][3] = {{{800, 10, -20}, {10, 60, 5}, {-20, 5, 40}}, {{300, -40, 60}, {-40, 90, 30}, {60, 30, 80}}, {{500, 0, 0}, {0, 70, 0}, {0, 0, 20}}};
    double H[3][3]; int set = (int)vp_param("set", 0), sym = (int)vp_param("sym", -1);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) H[i][j] = HS[set][i][j];
    if (sym >= 0 && sym < 3) H[sym][sym] = vp_real("H", 50, 500);
    if (sym >= 3) H[0][1] = H[1][0] = vp_real("Ho", -20, 20);
    double D = det3(H), n2 = 0;
    for (int k = 0; k < 3; ++k) o[k] = vp_real("o", -0.6 * d[k], 0.6 * d[k]);
    vp_assume(o[1] > -0.49 && o[1] < 0.49);
    for (int k = 0; k < 3; ++k) { g[k] = -(H[k][0] * o[0] + H[k][1] * o[1] + H[k][2] * o[2]); n2 += g[k] * g[k]; }
    sampled(v, c, g, H, d);
    vp_assume(D > 1); vp_assume(D * D > n2);
    for (int k = 0; k < 3; ++k) { double y = -g[k] / H[k][k]; vp_assume(y > -0.49 * d[k] && y < 0.49 * d[k]); }
    int sg = (int)vp_choice("sign", 0, 7);
    for (int k = 0; k < 3; ++k) vp_assume(sg >> k & 1 ? o[k] < -1e-9 : o[k] > 1e-9);
    v3 delta, off, dist;
    for (int i = 0; i < 3; ++i) delta(i) = d[i];
    vp_domain(2);
    q->compute_offsets(0, 0, 1, 1, v, delta, off, dist);
    for (int k = 0; k < 3; ++k) vp_eq(off(k), o[k], "offset is the minimum of the expansion");
    for (int k = 0; k < 3; ++k) {
        double s = -g[k] * o[k] - 0.5 * H[k][k] * o[k] * o[k];
        vp_eq(dist(k) * dist(k), s > 0 ? s : 0, "distance along each axis");
        vp_assert(o[k] < 0 ? dist(k) <= 0 : dist(k) >= 0, "distance has the sign of the offset");
    }
}
// path types change in the neighborhood: solved in time and azimuth, the rest of the distance is in D/E
static void unstable() {
    tgt t(3, 3, -10, 1, 0, 2, 0.1); wave_queue* q = t.q;
    double d[3] = {0.1, 1, 2}, c = vp_real("c", 0, 1e4), g[3], H[3][3] = {{0}}, v[3][3][3];
    for (int i = 0; i < 3; ++i) g[i] = vp_real("g", -100, 100);
    for (int i = 0; i < 3; ++i) H[i][i] = vp_real("H", 1, 1000);
    if (!vp_param("diag", 1)) H[0][2] = H[2][0] = vp_real("Ho", -10, 10);
    sampled(v, c, g, H, d);
    int what = (int)vp_param("what", 0);
    size_t i = (size_t)vp_param("i", 0), j = (size_t)vp_param("j", 0); int n = (int)vp_param("n", 0);
    wave_front* w = front(q, n);
    if (what == 0) w->surface(i, j) = 1; else if (what == 1) w->bottom(i, j) = 1; else if (what == 2) w->caustic(i, j) = 1; else w->on_edge(i, j) = true;
    // rays on a straight line in D/E, at rest
    double up = vp_real("up", 1, 100), th = vp_real("th", -1e-4, 1e-4), tr = t.pos.rho(0, 0), tt = t.pos.theta(0, 0), tp = t.pos.phi(0, 0), below = vp_real("below", -50, 50);
    for (int k = 0; k < 3; ++k) for (size_t a = 0; a < 3; ++a) for (size_t b = 0; b < 3; ++b)
        setw(front(q, k)->position, a, b, tr + below + up * ((double)a - 1), tt + th * ((double)a - 1), tp);
    double D = H[0][0] * H[2][2] - H[0][2] * H[2][0], n2 = g[0] * g[0] + g[2] * g[2];
    vp_assume(D > 0); vp_assume(D * D > n2);
    for (int k = 0; k < 3; ++k) { double y = -g[k] / H[k][k]; vp_assume(y > -0.49 * d[k] && y < 0.49 * d[k]); }
    double o0 = (-g[0] * H[2][2] + g[2] * H[0][2]) / D, o2 = (-g[2] * H[0][0] + g[0] * H[2][0]) / D, o1 = -g[1] / H[1][1];
    int sg = (int)vp_choice("sign", 0, 7);
    vp_assume(sg & 1 ? o0 < 0 : o0 >= 0); vp_assume(sg & 2 ? o2 < 0 : o2 >= 0); vp_assume(sg & 4 ? o1 < 0 : o1 >= 0);
    double s0 = -g[0] * o0 - 0.5 * H[0][0] * o0 * o0, s2 = -g[2] * o2 - 0.5 * H[2][2] * o2 * o2;
    vp_assume(s0 >= 0); vp_assume(s2 >= 0);
    double rest = c - s0 - s2;
    long more = vp_choice("rest", 0, 1);
    vp_assume(more ? rest > 1e-3 : rest < -1e-3);
    long side = vp_choice("side", 0, 1);
    double dot = -up * below;   // the target is along (or against) the step to the next ray in D/E
    vp_assume(side ? dot > 0 : dot < 0);
    v3 delta, off, dist;
    for (int k = 0; k < 3; ++k) delta(k) = d[k];
    q->compute_offsets(0, 0, 1, 1, v, delta, off, dist);
    vp_eq(off(0), o0, "time offset is the minimum in time and azimuth"); vp_eq(off(2), o2, "azimuth offset is the minimum in time and azimuth");
    vp_eq(dist(0) * dist(0), s0, "distance in time"); vp_eq(dist(2) * dist(2), s2, "distance in azimuth");
    if (more) {
        vp_eq(dist(1) * dist(1), rest, "the distances add up to that of the central ray");
        vp_assert(side ? dist(1) >= 0 : dist(1) <= 0, "D/E distance points to the target");
        vp_eq(off(1), (side ? 1 : -1) * fabs(o1), "D/E offset points to the target");
    } else { vp_eq(dist(1), 0, "no D/E distance left"); vp_eq(off(1), 0, "no D/E offset left"); }
}
static int nan_at = -1;
struct mock_spread : spreading_model {
    mock_spread(wave_queue& w) : spreading_model(w, 2) {}
    v3 off, dist; size_t de, az; int n = 0; double at[3];
    const vector<double>& intensity(const wposition1& l, size_t d, size_t a, const vector<double>& o, const vector<double>& s) override {
        ++n; de = d; az = a; at[0] = l.rho(); at[1] = l.theta(); at[2] = l.phi();
        for (int k = 0; k < 3; ++k) { off(k) = o(k); dist(k) = s(k); }
        for (int f = 0; f < 2; ++f) _spread(f) = f == nan_at ? NAN : vp_uf("spread", f, 0, 1e-10, 1.0);
        return _spread;
    }
    double width_de(size_t, size_t, const vector<double>&) override { return 1; }
    double width_az(size_t, size_t, const vector<double>&) override { return 1; }
};
struct log_ray : eigenray_listener {
    int n = 0; size_t t1, t2, id; eigenray_model r;
    void add_eigenray(size_t a, size_t b, eigenray_model::csptr ray, size_t run) override { ++n; t1 = a; t2 = b; id = run; r = *ray; }
};
static double level(int f) { return -10.0 * log10(vp_uf("spread", f, 0, 1e-10, 1.0)); }
static void eigenray() {
    nan_at = (int)vp_param("nan", -1); int what = (int)vp_param("what", 0);
    double h = 0.1, daz = 2, az0 = 40; size_t NA = 3, az = 1, de = 1;
    tgt t(3, NA, -1, 1, az0, daz, h); wave_queue* q = t.q;
    mock_spread* sp = new mock_spread(*q); q->_spreading_model = sp;
    log_ray log; q->add_eigenray_listener(&log); q->_run_id = 7;
    q->_time = vp_real("time", 0, 100);
    // field of the arrival directions: a quadratic of the launch angles and time around (base_de, base_az)
    double bde = 5, baz = vp_param("baz", 30), gd[3] = {1.0, -0.5, 0.25}, ga[3] = {0.5, 0.25, 1.0}, Hd[3][3] = {{0.2, 0, 0.1}, {0, -0.1, 0.05}, {0.1, 0.05, 0.2}}, Ha[3][3] = {{0.1, 0.05, 0}, {0.05, 0.2, 0.1}, {0, 0.1, -0.2}};
    double d[3] = {h, 1, daz};
    for (int n = 0; n < 3; ++n) for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) {
        double x = (n - 1) * h, y = ((double)i - 1) * d[1], z = ((double)j - 1) * d[2];
        double de_ = quad(bde, gd, Hd, x, y, z) * D2R, az_ = quad(baz, ga, Ha, x, y, z) * D2R;
        wave_front* w = front(q, n);
        setw(w->ndirection, i, j, sin(de_) / 1500, -cos(de_) * cos(az_) / 1500, cos(de_) * sin(az_) / 1500);
        w->surface(i, j) = 2; w->bottom(i, j) = 1; w->caustic(i, j) = 3; w->upper(i, j) = 4; w->lower(i, j) = 5;
        for (int f = 0; f < 2; ++f) { w->attenuation(i, j)(f) = i == 1 && j == 1 ? vp_uf("att", n, f, 0, 50) : 99; w->phase(i, j)(f) = i == 1 && j == 1 && n == 1 ? vp_uf("phase", f, 0, -9, 9) : 88; }
    }
    // squared distances with a minimum at o
    double c = vp_real("c", 100, 1e4), H[3] = {1000, 50, 60}, o[3] = {vp_real("o0", -0.49 * h, 0.49 * h), vp_real("o1", -0.49, 0.49), vp_real("o2", -0.98, 0.98)};
    if (what == 0) { int sg = (int)vp_choice("sign", 0, 7); for (int k = 0; k < 3; ++k) vp_assume(sg >> k & 1 ? o[k] < 0 : o[k] >= 0); }
    else { for (int k = 0; k < 3; ++k) vp_assume(o[k] > 0); }
    double HH[3][3] = {{H[0], 0, 0}, {0, H[1], 0}, {0, 0, H[2]}}, g[3], v[3][3][3];
    for (int k = 0; k < 3; ++k) g[k] = -H[k] * o[k];
    sampled(v, c, g, HH, d);
    double want_level[2];
    for (int f = 0; f < 2; ++f) vp_assume(level(f) >= 0 && level(f) <= 100);
    double dt = o[0] / h;
    int low = 0;
    for (int f = 0; f < 2; ++f) {
        double a = dt >= 0 ? vp_uf("att", 1, f, 0, 50) * (1 - dt) + vp_uf("att", 2, f, 0, 50) * dt : vp_uf("att", 0, f, 0, 50) * -dt + vp_uf("att", 1, f, 0, 50) * (1 + dt);
        want_level[f] = level(f) + a;
    }
    int pass = 1;
    if (what == 1) { q->intensity_threshold(-60); pass = (int)vp_choice("pass", 0, 1); vp_assume(pass ? want_level[0] < 60 || want_level[1] < 60 : want_level[0] > 60 && want_level[1] > 60); }
    if (what == 2) { long m = vp_choice("max", 0, 3); if (m == 0) q->max_surface(1); if (m == 1) q->max_bottom(0); if (m == 2) q->max_caustic(2); if (m == 3) q->max_upper(3); pass = 0; }
    if (what == 3) { q->max_surface(2); q->max_bottom(1); q->max_caustic(3); q->max_upper(4); }
    if (nan_at >= 0) pass = 0;
    q->build_eigenray(0, 0, de, az, v);
    vp_assert(log.n == pass, pass ? "the eigenray is reported once" : "rejected eigenray is not reported");
    if (!pass) return;
    vp_assert(log.t1 == 0 && log.t2 == 0 && log.id == 7, "target and run of the eigenray");
    vp_eq(log.r.travel_time, q->_time + o[0], "travel time"); vp_eq(log.r.source_de, 0.0 + o[1], "launch elevation"); vp_eq(log.r.source_az, az0 + daz + o[2], "launch azimuth");
    for (int f = 0; f < 2; ++f) { vp_eq(log.r.intensity(f), want_level[f], "intensity"); vp_eq(log.r.phase(f), vp_uf("phase", f, 0, -9, 9), "phase"); }
    vp_assert(log.r.surface == 2 && log.r.bottom == 1 && log.r.caustic == 3 && log.r.upper == 4 && log.r.lower == 5, "path counts");
    for (int k = 0; k < 3; ++k) vp_eq(sp->off(k), o[k], "offset given to the spreading model");
    vp_assert(sp->n == 1 && sp->de == de && sp->az == az, "spreading of the central ray");
    vp_eq(sp->at[0], t.pos.rho(0, 0), "spreading at the target"); vp_eq(sp->at[1], t.pos.theta(0, 0), "spreading at the target"); vp_eq(sp->at[2], t.pos.phi(0, 0), "spreading at the target");
    if (what) return;
    vp_eq_scale(log.r.target_de, quad(bde, gd, Hd, o[0], o[1], o[2]), 90, "arrival elevation");
    double az1 = quad(baz, ga, Ha, o[0], o[1], o[2]);
    if (baz > 170) { double z = log.r.target_az - az1; vp_assert(z * z < 1e-6 || (z + 360) * (z + 360) < 1e-6, "arrival azimuth to the south"); }
    else vp_eq_scale(log.r.target_az, az1, 180, "arrival azimuth");
}
struct log_verb : eigenverb_listener {
    int n = 0; size_t type; eigenverb_model v;
    void add_eigenverb(eigenverb_model::csptr verb, size_t t) override { ++n; type = t; v = *verb; }
};
// the patch of an interface that one ray covers
static void eigenverb() {
    env e; double h = 0.1; int what = (int)vp_param("what", 0); bool wrap = vp_param("wrap", 0);
    double D[4] = {-40, -10, 5, what == 3 ? 89.95 : 30}, A[4] = {0, 40, 200, 360};
    if (!wrap) { A[0] = 10; A[3] = 300; }
    seq_vector::csptr de(new seq_data(D, 4)), az(new seq_data(A, 4));
    wave_queue* q = queue(e, de, az, h);
    q->_az_boundary = wrap; q->_run_id = 7;
    log_verb log; if (what != 5) q->add_eigenverb_listener(&log);
    size_t i = (size_t)vp_choice("de", 0, 3), j = (size_t)vp_choice("az", 0, 3);
    int pass = !(wrap && j == 3) && !(what == 3 && i == 3) && what != 5;
    q->_time = vp_real("time", what == 4 ? -1 : 0.01, what == 4 ? 0 : 100); if (what == 4) pass = 0;
    double dt = vp_real("dt", 0, h), grazing = vp_real("grazing", 0.001, 1.5), c = vp_real("c", 1400, 1600), L = vp_real("L", 1, 1e6);
    if (what == 1) grazing = vp_choice("small", 0, 1) ? 0.0 : 5e-7; if (what == 1) pass = 0;
    sink = sin(grazing);
    int flip = (int)vp_choice("flip", 0, 1);
    wave_front* w = q->_curr;
    w->path_length(i, j) = L; w->sound_speed(i, j) = c;
    for (int f = 0; f < 2; ++f) w->attenuation(i, j)(f) = vp_uf("att", f, 0, 0, 100);
    w->surface(i, j) = 2; w->bottom(i, j) = 1; w->caustic(i, j) = 3; w->upper(i, j) = 4; w->lower(i, j) = 5;
    if (what == 6) { long m = vp_choice("max", 0, 3); if (m == 0) q->max_surface(1); if (m == 1) q->max_bottom(0); if (m == 2) q->max_caustic(2); if (m == 3) q->max_upper(3); pass = 0; }
    wposition1 p(12.0, 34.0, -56.0); wvector1 n; n.rho(1e-4); n.theta(vp_real("nt", -7e-4, 7e-4)); n.phi(vp_real("np", 1e-5, 7e-4));
    double speed = vp_real("speed", 1400, 1600); size_t type = (size_t)vp_int("type", 0, 9);
    // footprint: half way to the neighbors, by the nearest gap at the ends of the fan
    double g1 = D[i < 3 ? i + 1 : 3] - D[i < 3 ? i : 2], g0 = D[i > 0 ? i : 1] - D[i > 0 ? i - 1 : 0];
    double b1 = A[j < 3 ? j + 1 : 3] - A[j < 3 ? j : 2], b0 = A[j > 0 ? j : 1] - A[j > 0 ? j - 1 : 0];
    if (wrap && j == 0) b0 = A[3] - A[2];
    double up = (D[i] + 0.5 * g1) * D2R, dn = (D[i] - 0.5 * g0) * D2R, wide = 0.5 * (b0 + b1) * D2R, area = (sin(up) - sin(dn)) * wide;
    double power[2], path = L + c * dt;
    if (what != 1) for (int f = 0; f < 2; ++f) { power[f] = pow(10.0, -0.1 * vp_uf("att", f, 0, 0, 100)) * area / sin(grazing); }
    if (what == 2) { q->eigenverb_threshold(-30); int loud = (int)vp_choice("loud", 0, 1); vp_assume(loud ? power[0] > 1.0001e-3 || power[1] > 1.0001e-3 : power[0] < 0.999e-3 && power[1] < 0.999e-3); pass = pass && loud; }
    else if (what != 1) for (int f = 0; f < 2; ++f) vp_assume(power[f] > 1e-20);
    if (what != 2) q->eigenverb_threshold(-300);
    q->build_eigenverb(i, j, dt, flip ? -grazing : grazing, speed, p, n, type);
    vp_assert(log.n == pass, pass ? "the eigenverb is reported once" : "rejected eigenverb is not reported");
    if (!pass) return;
    vp_assert(log.type == type && log.v.de_index == i && log.v.az_index == j, "interface and launch indices");
    vp_eq(log.v.travel_time, q->_time + dt, "travel time"); vp_eq(log.v.grazing, grazing, "grazing angle"); vp_eq(log.v.sound_speed, speed, "sound speed");
    vp_eq(log.v.source_de, D[i] * D2R, "launch elevation"); vp_eq(log.v.source_az, A[j] * D2R, "launch azimuth");
    vp_eq(log.v.position.rho(), p.rho(), "location"); vp_eq(log.v.position.theta(), p.theta(), "location"); vp_eq(log.v.position.phi(), p.phi(), "location");
    vp_eq(log.v.direction, atan2(n.phi(), -n.theta()), "direction in the tangent plane");
    vp_eq(log.v.length, 0.5 * path * (up - dn) / sin(grazing), "half length of the patch");
    vp_eq(log.v.width, 0.5 * path * area / (up - dn), "half width of the patch");
    for (int f = 0; f < 2; ++f) vp_eq_scale(log.v.power(f), power[f], 1e-6, "power of the patch");
    vp_assert(log.v.surface == 2 && log.v.bottom == 1 && log.v.caustic == 3 && log.v.upper == 4 && log.v.lower == 5, "path counts");
}
// distances with one minimum anywhere inside the fan
static void search() {
    double h = 0.1, DE = 2, DA = 5, b = vp_param("b", 300), cc = vp_param("c", 40), a = 1e6;
    size_t ND = 6, NA = 5; bool wrap = vp_param("wrap", 0);
    if (wrap) DA = 90;
    tgt t(ND, NA, -5, DE, wrap ? 0 : 10, DA, h); wave_queue* q = t.q;
    q->_az_boundary = wrap; double az0 = wrap ? 0 : 10;
    q->_spreading_model = new mock_spread(*q); q->_source_pos.latitude(vp_param("over", 0) ? 10 : -10);
    log_ray log; q->add_eigenray_listener(&log); q->_time = 5; q->_run_id = 1;
    double to = vp_real("to", -0.48 * h, 0.48 * h), de = vp_real("de", -1.98, 1.98), az = vp_real("az", wrap ? 0 : az0 + 0.51 * DA, wrap ? 359 : az0 + 3.49 * DA);
    for (size_t i = 0; i < ND; ++i) for (size_t j = 0; j < NA; ++j) {
        double y = -5 + DE * i - de, z = az0 + DA * j - az;
        for (int n = 0; n < 3; ++n) { double x = (n - 1) * h - to; front(q, n)->distance2(0, 0)(i, j) = 100 + a * x * x + b * y * y + cc * z * z; setw(front(q, n)->ndirection, i, j, 1e-4, 0, 6e-4); for (int f = 0; f < 2; ++f) front(q, n)->attenuation(i, j)(f) = 0; }
        for (int n = 0; n < 3; ++n) front(q, n)->on_edge(i, j) = i == 0 || i == ND - 1;
    }
    for (int f = 0; f < 2; ++f) vp_assume(level(f) >= 0 && level(f) <= 100);
    // not on the line where two rays are equally near
    size_t ci = (size_t)vp_choice("ci", 2, 3), cj = (size_t)vp_choice("cj", 1, 3);
    double y = de - (-5 + DE * ci), z = az - (az0 + DA * cj);
    vp_assume(y > -0.49 * DE && y < 0.49 * DE); vp_assume(z > -0.49 * DA && z < 0.49 * DA);
    vp_domain(2);
    q->detect_eigenrays();
    vp_assert(log.n == 1, "exactly one eigenray for one closest point of approach");
    vp_eq(log.r.travel_time, 5 + to, "travel time of the closest point"); vp_eq(log.r.source_de, de, "launch elevation of the closest point"); vp_eq(log.r.source_az, az, "launch azimuth of the closest point");
}
void h_main() {
    switch (vp_param("kind", 0)) {
        case 0: taylor(); break;
        case 1: closest(); break;
        case 2: offsets(); break;
        case 3: unstable(); break;
        case 4: eigenray(); break;
        case 5: eigenverb(); break;
        case 6: search(); break;
    }
}
