// Wave queue: edges, path counts, reflections.
#include "queue_mock.h"

// ---- P28: edges, vertices and caustics of rays away from the boundaries
static void edges() {
    const size_t N = (size_t)vp_param("n", 5), M = 1;
    wave_front w(nullptr, freqs(), N, M);
    double r[8], d[8];
    for (size_t i = 0; i < N; ++i) {
        r[i] = vp_real("r", 6.3e6, 6.4e6); d[i] = vp_real("d", -1e-3, 1e-3);
        setw(w.position, i, 0, r[i], 1, 0); setw(w.ndirection, i, 0, d[i], 0, 0);
        w.on_edge(i, 0) = vp_choice("old", 0, 0);
    }
    w.on_edge(1, 0) = true;   // stale flags are cleared
    w.find_edges();
    bool want[8];
    for (size_t i = 0; i < N; ++i) want[i] = i == 0 || i == N - 1;
    for (size_t i = 1; i + 1 < N; ++i) {
        bool ext = (r[i] < r[i - 1] && r[i] < r[i + 1]) || (r[i] > r[i - 1] && r[i] > r[i + 1]);
        if (ext) {
            want[i] = true;
            double a = d[i] - d[i - 1], b = d[i] - d[i + 1];
            if (a * a > b * b) want[i - 1] = true; else want[i + 1] = true;
        }
    }
    for (size_t i = 0; i < N; ++i) vp_assert((bool)w.on_edge(i, 0) == want[i], "edge flags");
}
static void counts() {
    const size_t N = 3, M = 2;
    env e;
    e.bottom->h = R0 - 5000;
    wave_queue* q = queue(e, fan(-10, 10, N), fan(0, 10, M), 0.1);
    double rc[N][M], rn[N][M], dc[N][M], dn[N][M]; long s[N][M], b[N][M];
    size_t J = (size_t)vp_choice("az", 0, M - 1);
    int what = (int)vp_choice("what", 0, 1);
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) {
        bool on = j == J;
        rc[i][j] = on && what == 0 ? vp_real("rc", R0 - 4000, R0 - 1) : R0 - 100.0 * (i + 1); rn[i][j] = on && what == 0 ? vp_real("rn", R0 - 4000, R0 - 1) : R0 - 100.0 * (i + 1);
        dc[i][j] = on && what == 1 ? vp_real("dc", -1e-3, 1e-3) : 1e-4; dn[i][j] = on && what == 1 ? vp_real("dn", -1e-3, 1e-3) : 1e-4;
        s[i][j] = on && what == 0 ? vp_int("s", 0, 3) : 0; b[i][j] = on && what == 0 ? vp_int("b", 0, 3) : 0;
        setw(q->_curr->position, i, j, rc[i][j], 1, 0); setw(q->_next->position, i, j, rn[i][j], 1, 0);
        setw(q->_curr->ndirection, i, j, dc[i][j], 0, 0); setw(q->_next->ndirection, i, j, dn[i][j], 0, 0);
        q->_next->surface(i, j) = s[i][j]; q->_next->bottom(i, j) = b[i][j];
        q->_next->caustic(i, j) = 5; q->_next->upper(i, j) = 6; q->_next->lower(i, j) = 7;
        q->_next->phase(i, j)(0) = 0.25; q->_next->phase(i, j)(1) = -0.5;
    }
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) { q->detect_vertices(i, j); q->detect_caustics(i, j); }
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) {
        bool top = dc[i][j] > 0 && dn[i][j] < 0, bot = dc[i][j] < 0 && dn[i][j] > 0;
        vp_assert(q->_next->upper(i, j) == 6 + (top ? 1 : 0), "upper vertex where the ray turns down");
        vp_assert(q->_next->lower(i, j) == 7 + (bot ? 1 : 0), "lower vertex where the ray turns up");
        bool fold = false;
        if (i > 0 && s[i][j] == s[i - 1][j] && b[i][j] == b[i - 1][j])
            fold = (rc[i][j] > rc[i - 1][j] && rn[i][j] < rn[i - 1][j]) || (rc[i][j] < rc[i - 1][j] && rn[i][j] > rn[i - 1][j]);
        vp_assert(q->_next->caustic(i, j) == 5 + (fold ? 1 : 0), "caustic where neighbours of the same path cross");
        vp_eq(q->_next->phase(i, j)(0), 0.25 - (fold ? PI / 2 : 0), "caustic phase"); vp_eq(q->_next->phase(i, j)(1), -0.5 - (fold ? PI / 2 : 0), "caustic phase");
        vp_assert(q->_next->surface(i, j) == s[i][j] && q->_next->bottom(i, j) == b[i][j], "bounce counts untouched");
    }
}
// ---- P24: reflection from the boundaries
static void ray(wave_front* w, size_t i, size_t j, const char* tag) {
    setw(w->position, i, j, vp_real("r", R0 - 5000, R0), vp_real("t", 0.5, 2.5), vp_real("p", -3, 3));
    setw(w->ndirection, i, j, vp_real("nr", -7e-4, 7e-4), vp_real("nt", -7e-4, 7e-4), vp_real("np", -7e-4, 7e-4));
    w->sound_speed(i, j) = vp_real("cc", 1400, 1600);
}
static const int NF = 20;
static double field(const wave_front* w, int k, size_t i, size_t j) {
    if (k < 3) return getw(w->position, k, i, j);
    if (k < 6) return getw(w->ndirection, k - 3, i, j);
    if (k < 9) return getw(w->pos_gradient, k - 6, i, j);
    if (k < 12) return getw(w->ndir_gradient, k - 9, i, j);
    if (k < 15) return getw(w->sound_gradient, k - 12, i, j);
    if (k == 15) return w->sound_speed(i, j);
    if (k == 16) return w->distance(i, j);
    if (k == 17) return w->path_length(i, j);
    return w->attenuation(i, j)(k - 18);
}
static void same(const wave_front* a, const wave_front* b, size_t i, size_t j, int n, const char* id) {
    for (int k = 0; k < n; ++k) vp_eq(field(a, k, i, j), field(b, k, i, j), id);
}
// restart of the integration: back to the start of the step, two steps into the past, one into the future
static void kutta(double h, wave_front& from, wave_front& to, env& e) {
    wave_front a(e.ocean, e.f, 1, 1), b(e.ocean, e.f, 1, 1);
    ode_integ::rk1_pos(h, &from, &a); ode_integ::rk1_ndir(h, &from, &a); a.update();
    ode_integ::rk2_pos(h, &from, &a, &b); ode_integ::rk2_ndir(h, &from, &a, &b); b.update();
    ode_integ::rk3_pos(h, &from, &a, &b, &to); ode_integ::rk3_ndir(h, &from, &a, &b, &to); to.update();
}
static void reinit() {
    env e;
    double h = vp_param("h", 1) * 0.1, tw = vp_real("tw", -0.2, 0.2);
    wave_queue* q = queue(e, fan(-10, 10, 2), fan(0, 10, 1), h);
    reflection_model* m = new reflection_model(*q);
    wposition1 p; wvector1 n;
    p.rho(vp_real("r", R0 - 5000, R0)); p.theta(vp_real("t", 0.5, 2.5)); p.phi(vp_real("p", -3, 3));
    n.rho(vp_real("nr", -7e-4, 7e-4)); n.theta(vp_real("nt", -7e-4, 7e-4)); n.phi(vp_real("np", -7e-4, 7e-4));
    for (int k = 0; k < 2; ++k) { q->_curr->path_length(k, 0) = q->_next->path_length(k, 0) = 77.0; q->_curr->position.rho(k, 0, 5.0); }
    vp_domain(2);
    m->reflection_reinit(1, 0, tw, p, n, 1500.0);
    wave_front start(e.ocean, e.f, 1, 1), past(e.ocean, e.f, 1, 1), prev(e.ocean, e.f, 1, 1), curr(e.ocean, e.f, 1, 1), next(e.ocean, e.f, 1, 1);
    setw(start.position, 0, 0, p.rho(), p.theta(), p.phi()); setw(start.ndirection, 0, 0, n.rho(), n.theta(), n.phi());
    start.update();
    kutta(-tw, start, curr, e); kutta(-h, curr, prev, e); kutta(-h, prev, past, e);
    ode_integ::ab3_pos(h, &past, &prev, &curr, &next); ode_integ::ab3_ndir(h, &past, &prev, &curr, &next); next.update();
    wave_front* got[4] = {q->_curr, q->_prev, q->_past, q->_next}; wave_front* want[4] = {&curr, &prev, &past, &next};
    int lvl = (int)vp_param("level", 4);
    for (int w = 0; w < lvl; ++w)
        for (int k = 0; k < 16; ++k) vp_eq(field(got[w], k, 1, 0), field(want[w], k, 0, 0), w == 0 ? "current state is integrated back from the collision" : w == 3 ? "next state is stepped from the reflected ray" : "past states are integrated back from the reflected ray");
    vp_eq(q->_curr->position.rho(0, 0), 5.0, "other rays untouched");
}
// the point of collision: exact for rays that move quadratically in time
static void collision() {
    env e; double h = vp_real("h", 0.01, 1), t = vp_real("tw", -1, 1);
    wave_queue* q = queue(e, fan(-10, 10, 2), fan(0, 10, 2), h);
    size_t i = (size_t)vp_choice("i", 0, 1), j = (size_t)vp_choice("j", 0, 1);
    double A[7], B[7], C[7];
    wave_front* w[3] = {q->_prev, q->_curr, q->_next};
    for (int k = 0; k < 7; ++k) {
        double s = k == 0 ? 1e3 : k < 3 ? 1 : k == 6 ? 100 : 1e-4;
        A[k] = (k == 0 ? 6.37e6 : k == 6 ? 1500 : 0) + vp_real("A", -s, s); B[k] = vp_real("B", -s, s); C[k] = vp_real("C", -s, s);
    }
    for (int n = 0; n < 3; ++n) {
        double x = (n - 1) * h, v[7];
        for (int k = 0; k < 7; ++k) v[k] = A[k] + B[k] * x + C[k] * x * x;
        setw(w[n]->position, i, j, v[0], v[1], v[2]); setw(w[n]->ndirection, i, j, v[3], v[4], v[5]); w[n]->sound_speed(i, j) = v[6];
    }
    wposition1 p; wvector1 d; double c = 0;
    q->collision_location(i, j, t, &p, &d, &c);
    double got[7] = {p.rho(), p.theta(), p.phi(), d.rho(), d.theta(), d.phi(), c};
    for (int k = 0; k < 7; ++k) vp_eq_scale(got[k], A[k] + B[k] * t + C[k] * t * t, k < 1 ? 6e6 : k < 3 ? 1 : k == 6 ? 1500 : 1e-4, k < 3 ? "collision position" : k < 6 ? "collision direction" : "collision sound speed");
}
struct hit : reflection_listener {
    int n; double time, dt, grazing, speed, p[3], d[3]; size_t de, az, type;
    hit() : n(0) {}
    void reflect(double t, size_t i, size_t j, double x, double g, double s, const wposition1& pos, const wvector1& dir, size_t ty) override {
        ++n; time = t; de = i; az = j; dt = x; grazing = g; speed = s; type = ty;
        p[0] = pos.rho(); p[1] = pos.theta(); p[2] = pos.phi(); d[0] = dir.rho(); d[1] = dir.theta(); d[2] = dir.phi();
    }
};
static double dirin(const char* n) { return vp_real(n, -7e-4, 7e-4); }
// the state of one ray on three wavefronts, moving linearly in time
struct linear { double p[3], v[3], n[3], c; };
static linear motion(wave_queue* q, size_t i, size_t j, double r0, double r1) {
    linear m; double h = q->_time_step;
    m.p[0] = vp_real("r", r0, r1); m.p[1] = vp_real("t", 0.5, 2.5); m.p[2] = vp_real("p", -3, 3);
    m.c = vp_real("cc", 1400, 1600);
    for (int k = 0; k < 3; ++k) m.n[k] = dirin("n");
    m.v[0] = m.c * m.c * m.n[0]; m.v[1] = vp_real("vt", -1e-3, 1e-3); m.v[2] = vp_real("vp", -1e-3, 1e-3);
    wave_front* w[4] = {q->_past, q->_prev, q->_curr, q->_next};
    for (int k = 0; k < 4; ++k) {
        double x = (k - 2) * h;
        setw(w[k]->position, i, j, m.p[0] + m.v[0] * x, m.p[1] + m.v[1] * x, m.p[2] + m.v[2] * x);
        setw(w[k]->ndirection, i, j, m.n[0], m.n[1], m.n[2]); w[k]->sound_speed(i, j) = m.c;
    }
    return m;
}
static const double AT[2] = {3.0, 4.0}, PH[2] = {0.25, -0.5};
static void levels(wave_queue* q, size_t i, size_t j) { for (int f = 0; f < 2; ++f) { q->_next->attenuation(i, j)(f) = AT[f]; q->_next->phase(i, j)(f) = PH[f]; } }
static double loss(const char* n, double g, int f) { return vp_uf(n, g, 1000.0 + 500.0 * f, n[4] ? -3 : 0, n[4] ? 3 : 50); }
// compares one ray of q to a ray restarted from a given reflected state
static void restarted(wave_queue* q, env& e, size_t i, size_t j, double h, double tw, const wposition1& p, const wvector1& n, const char* id) {
    wave_queue* r = queue(e, fan(-10, 10, 2), fan(0, 10, 1), h);
    reflection_model* m = new reflection_model(*r);
    m->reflection_reinit(i, j, tw, p, n, 1500.0);
    wave_front* got[4] = {q->_curr, q->_prev, q->_past, q->_next}; wave_front* want[4] = {r->_curr, r->_prev, r->_past, r->_next};
    for (int w = 0; w < 4; ++w) for (int k = 0; k < 16; ++k) vp_eq_scale(field(got[w], k, i, j), field(want[w], k, i, j), k == 0 ? 6e6 : k < 3 ? 1 : k < 6 ? 1e-4 : k == 15 ? 1500 : k >= 12 ? 1e5 : 1, id);
}
static void surface() {
    env e; double h = 0.1; wave_queue* q = queue(e, fan(-10, 10, 2), fan(0, 10, 1), h);
    hit log; int watch = (int)vp_param("watch", 0);
    if (watch) q->add_reflection_listener(&log);
    q->_time = vp_real("time", 0, 100);
    q->_reflection_model = new reflection_model(*q);
    vp_domain(2);
    linear m = motion(q, 1, 0, R0 - 500, R0 + 10); levels(q, 1, 0);
    long up = vp_choice("up", 0, 1);
    vp_assume(up ? m.n[0] > 1e-6 : m.n[0] <= 0);
    double keep[18]; for (int k = 0; k < 18; ++k) keep[k] = field(q->_next, k, 1, 0);
    double tw = m.n[0] == 0 ? 0 : -(m.p[0] - R0) / m.v[0];
    bool did = q->_reflection_model->surface_reflection(1, 0);
    vp_assert(did == (up == 1), "only rising rays reflect from the surface");
    if (!up) { for (int k = 0; k < 18; ++k) vp_eq(field(q->_next, k, 1, 0), keep[k], "a near miss leaves the ray alone"); vp_assert(log.n == 0, "no report of a near miss"); return; }
    double g = atan2(m.n[0], sqrt(m.n[1] * m.n[1] + m.n[2] * m.n[2]));
    for (int f = 0; f < 2; ++f) {
        vp_eq(q->_next->attenuation(1, 0)(f), AT[f] + loss("loss", g, f), "surface loss of the grazing angle");
        vp_eq(q->_next->phase(1, 0)(f), PH[f] - PI, "surface phase change");
    }
    if (watch) {
        vp_assert(log.n == 1 && log.de == 1 && log.az == 0 && log.type == 1, "one surface hit reported");
        vp_eq(log.time, q->_time + tw, "hit time"); vp_eq(log.dt, tw, "partial step"); vp_eq(log.grazing, g, "hit grazing angle"); vp_eq(log.speed, m.c, "hit sound speed");
        vp_eq_scale(log.p[0], R0, 6e6, "hit lies on the surface");
        vp_eq(log.p[1], m.p[1] + m.v[1] * tw, "hit position"); vp_eq(log.p[2], m.p[2] + m.v[2] * tw, "hit position");
        for (int k = 0; k < 3; ++k) vp_eq_scale(log.d[k], m.n[k], 1e-4, "hit direction is the incoming one");
        return;
    }
    wposition1 p; wvector1 n;
    p.rho(m.p[0] + m.v[0] * tw); p.theta(m.p[1] + m.v[1] * tw); p.phi(m.p[2] + m.v[2] * tw);
    n.rho(-m.n[0]); n.theta(m.n[1]); n.phi(m.n[2]);
    restarted(q, e, 1, 0, h, tw, p, n, "reflected ray leaves in the mirror direction");
}
// a ray on the bottom (so that the partial step is zero) or above it
static void bottom() {
    env e; double h = 0.1; wave_queue* q = queue(e, fan(-10, 10, 2), fan(0, 10, 1), h);
    hit log; q->add_reflection_listener(&log);
    q->_time = vp_real("time", 0, 100);
    reflection_model* rm = q->_reflection_model = new reflection_model(*q);
    vp_domain(2);
    int shallow = (int)vp_param("shallow", 0), on = (int)vp_param("on", 1), steep = (int)vp_param("clamp", 0);
    linear m = motion(q, 1, 0, shallow ? R0 - 29 : R0 - 5000, shallow ? R0 - 1 : R0 - 40); levels(q, 1, 0);
    double N[3] = {1, 0, 0};
    if (!vp_param("flat", 0)) { N[0] = vp_real("Nr", 0.1, 1); N[1] = vp_real("Nt", -0.9, 0.9); N[2] = vp_real("Np", -0.9, 0.9); }
    e.bottom->nr = N[0]; e.bottom->nt = N[1]; e.bottom->np = N[2];
    double hw = on ? 0.0 : vp_real("hw", 0, 20), depth = vp_real("depth", 0, 100);
    e.bottom->h = m.p[0] - hw;
    if (shallow) { vp_assume(N[1] * N[1] + N[2] * N[2] > 1e-4); double s = sqrt(N[1] * N[1] + N[2] * N[2]); N[0] = 0; N[1] = N[1] / s; N[2] = N[2] / s; }
    double v[3] = {m.v[0], m.c * m.c * m.n[1], m.c * m.c * m.n[2]};
    double dot = N[0] * v[0] + N[1] * v[1] + N[2] * v[2];
    // speed that is needed to reach the depth under the bottom in one step, at least 6 m/s
    double need = (hw + depth) * N[0];
    vp_assume(steep == 1 ? need <= 6 && dot > -6 : steep == 2 ? need > 6 && dot > -need : need <= 6 ? dot < -6 : dot < -need);
    double in = steep == 1 ? -6 : steep == 2 ? -need : dot;
    double tw = on ? 0 : -hw * N[0] / in;
    if (!on) vp_assume(tw > 0);
    bool did = rm->bottom_reflection(1, 0, depth);
    vp_assert(did, "bottom reflects");
    vp_assert(log.n == 1 && log.de == 1 && log.az == 0 && log.type == 0, "one bottom hit reported");
    vp_eq(log.time, q->_time + tw, "hit time"); vp_eq(log.dt, tw, "partial step"); vp_eq(log.speed, m.c, "hit sound speed");
    for (int k = 0; k < 3; ++k) vp_eq_scale(log.p[k], m.p[k] + m.v[k] * tw, k ? 1 : 6e6, "hit position");
    for (int k = 0; k < 3; ++k) vp_eq_scale(log.d[k], v[k], 1500, "hit direction is the incoming one");
    for (int f = 0; f < 2; ++f) {
        vp_eq(q->_next->attenuation(1, 0)(f), AT[f] + loss("loss", log.grazing, f), "bottom loss of the grazing angle");
        vp_eq(q->_next->phase(1, 0)(f), PH[f] + loss("lossphase", log.grazing, f), "bottom phase change");
    }
    double in2 = in;
    if (!on) {   // the height over the bottom at the collision decides the second test
        double need2 = (m.p[0] + m.v[0] * tw - e.bottom->h + depth) * N[0];
        vp_assume(need2 <= 6 ? dot < -6 : dot < -need2);
    }
    double g = in2 / m.c >= 1 ? -PI / 2 : in2 / m.c <= -1 ? PI / 2 : asin(-in2 / m.c);
    vp_eq(log.grazing, g, "grazing angle to the bottom");
    double w[3], s = 0;
    for (int k = 0; k < 3; ++k) { w[k] = v[k] - in2 * 2.0 * N[k]; }
    s = sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) * m.c;
    if (on) {
        for (int k = 0; k < 3; ++k) vp_eq_scale(getw(q->_curr->ndirection, k, 1, 0), w[k] / s, 1e-4, "bottom mirrors the direction, with the local slowness");
        for (int k = 0; k < 3; ++k) vp_eq_scale(getw(q->_curr->position, k, 1, 0), m.p[k], k ? 1 : 6e6, "reflected ray starts at the collision");
        return;
    }
    wposition1 p; wvector1 n;
    p.rho(m.p[0] + m.v[0] * tw); p.theta(m.p[1] + m.v[1] * tw); p.phi(m.p[2] + m.v[2] * tw);
    n.rho(w[0] / s); n.theta(w[1] / s); n.phi(w[2] / s);
    restarted(q, e, 1, 0, h, tw, p, n, "reflected ray leaves in the mirror direction");
}
// ---- P28: one step of the whole queue, away from the boundaries
static wave_front* copy(env& e, const wave_front* w, size_t n, size_t m) {
    wave_front* c = new wave_front(e.ocean, e.f, n, m);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
        setw(c->position, i, j, getw(w->position, 0, i, j), getw(w->position, 1, i, j), getw(w->position, 2, i, j));
        setw(c->ndirection, i, j, getw(w->ndirection, 0, i, j), getw(w->ndirection, 1, i, j), getw(w->ndirection, 2, i, j));
    }
    c->update();
    return c;
}
static void march() {
    env e; double h = vp_real("h", 0.01, 0.2);
    e.bottom->h = R0 - 5000;
    const size_t N = 2, M = 1;
    wave_queue* q = queue(e, fan(-10, 10, N), fan(0, 10, M), h);
    q->_reflection_model = new reflection_model(*q);
    q->_time = vp_real("time", 0, 100);
    vp_domain(2);
    wave_front* w[4] = {q->_past, q->_prev, q->_curr, q->_next};
    // rays near a point, falling slowly
    for (int n = 0; n < 4; ++n) for (size_t i = 0; i < N; ++i) {
        setw(w[n]->position, i, 0, i == 0 ? vp_real("r", R0 - 4000, R0 - 1000) : R0 - 100.0 * (4 - n), i == 0 ? vp_real("t", 0.5, 2.5) : 1.0, i == 0 ? vp_real("p", -3, 3) : 0.1 * n);
        setw(w[n]->ndirection, i, 0, i == 0 ? vp_real("nr", 1e-5, 7e-4) : 1e-4, i == 0 ? vp_real("nt", -7e-4, 7e-4) : 0, i == 0 ? vp_real("np", -7e-4, 7e-4) : 6e-4);
    }
    for (int n = 0; n < 4; ++n) w[n]->update();
    double L = vp_real("L", 0, 1e5);
    for (int n = 0; n < 4; ++n) for (size_t i = 0; i < N; ++i) for (int f = 0; f < 2; ++f) {
        w[n]->attenuation(i, 0)(f) = n + 10 * f + (n == 3 ? vp_uf("at", f, i, 0, 9) : 0); w[n]->phase(i, 0)(f) = n - 10 * f + (n == 3 ? vp_uf("ph", f, i, 0, 9) : 0);
        w[n]->path_length(i, 0) = n == 3 ? L : -1; w[n]->surface(i, 0) = n; w[n]->bottom(i, 0) = n + 1; w[n]->caustic(i, 0) = n + 2; w[n]->upper(i, 0) = n + 3; w[n]->lower(i, 0) = n + 4;
    }
    // the step past the next wavefront
    wave_front *a = copy(e, w[1], N, M), *b = copy(e, w[2], N, M), *c = copy(e, w[3], N, M); wave_front d(e.ocean, e.f, N, M);
    ode_integ::ab3_pos(h, a, b, c, &d); ode_integ::ab3_ndir(h, a, b, c, &d); d.update();
    double t0 = q->_time;
    q->step();
    vp_assert(q->_past == w[1] && q->_prev == w[2] && q->_curr == w[3] && q->_next == w[0], "the wavefronts move down the queue");
    vp_eq(q->time(), t0 + h, "time of the current wavefront");
    for (size_t i = 0; i < N; ++i) {
        for (int k = 0; k < 17; ++k) vp_eq_scale(field(q->_next, k, i, 0), field(&d, k, i, 0), k == 0 ? 6e6 : k < 3 ? 1 : k < 6 ? 1e-4 : k == 15 ? 1500 : k >= 12 ? 1e5 : 1, "next wavefront is integrated from the last three");
        vp_eq(q->_next->path_length(i, 0), L + d.distance(i, 0), "path length adds up");
        for (int f = 0; f < 2; ++f) {
            vp_eq(q->_next->attenuation(i, 0)(f), d.attenuation(i, 0)(f) + 3 + 10 * f + vp_uf("at", f, i, 0, 9), "attenuation adds up");
            vp_eq(q->_next->phase(i, 0)(f), d.phase(i, 0)(f) + 3 - 10 * f + vp_uf("ph", f, i, 0, 9), "phase adds up");
        }
        vp_assert(q->_next->surface(i, 0) == 3 && q->_next->bottom(i, 0) == 4 && q->_next->caustic(i, 0) == 5 + (int)0 && q->_next->upper(i, 0) == 6 && q->_next->lower(i, 0) == 7, "path counts carry over");
    }
}
// the start of a propagation
static void start() {
    env e; double h = 0.1; int out = (int)vp_param("out", 0);
    e.bottom->h = R0 - 2000;
    vp_domain(2);
    wposition1 p; p.rho(out == 1 ? vp_real("r", R0 - 0.05, R0 + 100) : out == 2 ? vp_real("r", R0 - 3000, R0 - 2000) : vp_real("r", R0 - 1999, R0 - 1)); p.theta(vp_real("t", 0.5, 2.5)); p.phi(vp_real("p", -3, 3));
    seq_vector::csptr de = fan(-10, 25, 2), az = fan(0, 40, 1);
    wave_queue q(e.ocean, e.f, p, de, az, h);
    double r = out == 1 ? R0 - 0.1 : out == 2 ? R0 - 2000 + 0.1 : p.rho();
    wave_front curr(e.ocean, e.f, 2, 1), prev(e.ocean, e.f, 2, 1), past(e.ocean, e.f, 2, 1), next(e.ocean, e.f, 2, 1);
    for (size_t i = 0; i < 2; ++i) {
        double d = (*de)(i) * D2R, a = (*az)(0) * D2R, c = vp_uf("c", r, p.theta(), 1400, 1600);
        setw(curr.position, i, 0, r, p.theta(), p.phi()); setw(curr.ndirection, i, 0, sin(d) / c, -cos(d) * cos(a) / c, cos(d) * sin(a) / c);
    }
    curr.update();
    vp_eq_scale(q._source_pos.rho(), r, 6e6, "the source is in the water");
    if (out) return;
    for (size_t i = 0; i < 2; ++i) for (int k = 0; k < 16; ++k) vp_eq_scale(field(q._curr, k, i, 0), field(&curr, k, i, 0), k == 0 ? 6e6 : k < 3 ? 1 : k < 6 ? 1e-4 : k == 15 ? 1500 : k >= 12 ? 1e5 : 1, "rays start at the source in their launch directions");
    { wave_front x(e.ocean, e.f, 2, 1), y(e.ocean, e.f, 2, 1);
    ode_integ::rk1_pos(-h, &curr, &x); ode_integ::rk1_ndir(-h, &curr, &x); x.update();
    ode_integ::rk2_pos(-h, &curr, &x, &y); ode_integ::rk2_ndir(-h, &curr, &x, &y); y.update();
    ode_integ::rk3_pos(-h, &curr, &x, &y, &prev); ode_integ::rk3_ndir(-h, &curr, &x, &y, &prev); prev.update(); }
    for (size_t i = 0; i < 2; ++i) for (int k = 0; k < 16; ++k) vp_eq_scale(field(q._prev, k, i, 0), field(&prev, k, i, 0), k == 0 ? 6e6 : k < 3 ? 1 : k < 6 ? 1e-4 : k == 15 ? 1500 : k >= 12 ? 1e5 : 1, "rays are integrated back one step");
    { wave_front x(e.ocean, e.f, 2, 1), y(e.ocean, e.f, 2, 1);
    ode_integ::rk1_pos(-h, &prev, &x); ode_integ::rk1_ndir(-h, &prev, &x); x.update();
    ode_integ::rk2_pos(-h, &prev, &x, &y); ode_integ::rk2_ndir(-h, &prev, &x, &y); y.update();
    ode_integ::rk3_pos(-h, &prev, &x, &y, &past); ode_integ::rk3_ndir(-h, &prev, &x, &y, &past); past.update(); }
    for (size_t i = 0; i < 2; ++i) for (int k = 0; k < 6; ++k) vp_eq_scale(field(q._past, k, i, 0), field(&past, k, i, 0), k == 0 ? 6e6 : k < 3 ? 1 : 1e-4, "rays are integrated back two steps");
    ode_integ::ab3_pos(h, &past, &prev, &curr, &next); ode_integ::ab3_ndir(h, &past, &prev, &curr, &next); next.update();
    for (size_t i = 0; i < 2; ++i) for (int k = 0; k < 16; ++k) vp_eq_scale(field(q._next, k, i, 0), field(&next, k, i, 0), k == 0 ? 6e6 : k < 3 ? 1 : k < 6 ? 1e-4 : k == 15 ? 1500 : k >= 12 ? 1e5 : 1, "first step ahead");
    for (size_t i = 0; i < 2; ++i) vp_eq(q._next->path_length(i, 0), next.distance(i, 0), "path length of the first step");
    vp_eq(q.time(), 0, "starts at zero time");
}
void h_main() {
    switch (vp_param("kind", 0)) {
        case 0: edges(); break;
        case 1: counts(); break;
        case 2: reinit(); break;
        case 3: collision(); break;
        case 4: surface(); break;
        case 5: bottom(); break;
        case 6: march(); break;
        case 8: start(); break;
    }
}
