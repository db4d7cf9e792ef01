// Ray integration: steps and ray equations.
#include "wave_mock.h"
// ---- P22
static void steps() {
    const size_t N = 2;
    double h = vp_real("h", -1, 1);
    wave_front* y[4];
    for (int n = 0; n < 4; ++n) y[n] = new wave_front(nullptr, freqs(), 1, N);
    bool na = vp_choice("noalias", 0, 1);
    int what = (int)vp_choice("what", 0, 2);     // 0: Kutta stages, 1: Simpson, 2: Adams-Bashforth
    double p0[6][N], g[6][N][4];
    double lo[3] = {6.3e6, 0, -4}, hi[3] = {6.4e6, 3.2, 4};
    for (int k = 0; k < 6; ++k) for (size_t j = 0; j < N; ++j) {
        p0[k][j] = k < 3 ? vp_real("p", lo[k], hi[k]) : vp_real("n", -1, 1);
        for (int m = 0; m < 4; ++m) g[k][j][m] = vp_real("g", -1e3, 1e3);
    }
    for (int n = 0; n < 4; ++n) for (size_t j = 0; j < N; ++j) {
        // wavefront n is at time n*h/2 (Runge-Kutta) or n*h (Adams-Bashforth)
        double t = what == 2 ? n * h : 0.5 * n * h, v[6];
        for (int k = 0; k < 6; ++k) {
            v[k] = g[k][j][0] + g[k][j][1] * t + g[k][j][2] * t * t;
            if (what == 1) v[k] += g[k][j][3] * t * t * t;
        }
        setw(y[n]->pos_gradient, 0, j, v[0], v[1], v[2]); setw(y[n]->ndir_gradient, 0, j, v[3], v[4], v[5]);
        setw(y[n]->position, 0, j, p0[0][j], p0[1][j], p0[2][j]); setw(y[n]->ndirection, 0, j, p0[3][j], p0[4][j], p0[5][j]);
    }
    if (what == 0) {
        ode_integ::rk1_pos(h, y[0], y[1], na); ode_integ::rk1_ndir(h, y[0], y[1], na);
        ode_integ::rk2_pos(h, y[0], y[1], y[2], na); ode_integ::rk2_ndir(h, y[0], y[1], y[2], na);
        for (int k = 0; k < 6; ++k) for (size_t j = 0; j < N; ++j) {
            double a = g[k][j][0], m = a + g[k][j][1] * 0.5 * h + g[k][j][2] * 0.25 * h * h;
            vp_eq_scale(getw(k < 3 ? y[1]->position : y[1]->ndirection, k % 3, 0, j), p0[k][j] + 0.5 * h * a, 10, "first stage is half a step along the first slope");
            vp_eq_scale(getw(k < 3 ? y[2]->position : y[2]->ndirection, k % 3, 0, j), p0[k][j] + h * (2 * m - a), 10, "second stage extrapolates the two slopes");
        }
    } else if (what == 1) {
        bool alias = vp_choice("alias", 0, 1);
        wave_front* out = alias ? y[2] : y[3];
        if (alias) na = false;
        ode_integ::rk3_pos(h, y[0], y[1], y[2], out, na); ode_integ::rk3_ndir(h, y[0], y[1], y[2], out, na);
        for (int k = 0; k < 6; ++k) for (size_t j = 0; j < N; ++j) {
            double* c = g[k][j];
            vp_eq_scale(getw(k < 3 ? out->position : out->ndirection, k % 3, 0, j), p0[k][j] + h * (c[0] + h * (c[1] / 2 + h * (c[2] / 3 + h * c[3] / 4))), 10, "Runge-Kutta step integrates cubics exactly");
        }
    } else {
        ode_integ::ab3_pos(h, y[0], y[1], y[2], y[3], na); ode_integ::ab3_ndir(h, y[0], y[1], y[2], y[3], na);
        for (size_t j = 0; j < N; ++j) {
            double d[6];
            for (int k = 0; k < 6; ++k) {
                double *c = g[k][j];
                // integral from 2h to 3h
                d[k] = h * (c[0] + h * (c[1] * 5 / 2 + h * c[2] * 19 / 3));
                vp_eq_scale(getw(k < 3 ? y[3]->position : y[3]->ndirection, k % 3, 0, j), p0[k][j] + d[k], 10, "Adams-Bashforth step integrates quadratics exactly");
            }
            double e = y[3]->distance(0, j), w = sin(p0[1][j]);
            vp_assert(e >= 0, "distance not negative");
            vp_eq(e * e, d[0] * d[0] + p0[0][j] * p0[0][j] * (d[1] * d[1] + w * w * d[2] * d[2]), "distance of a step");
        }
    }
    for (int n = 0; n < 4; ++n) delete y[n];
}
// ---- P23
static void derivatives() {
    mock_profile* prof = new mock_profile();
    prof->attenuation(attenuation_model::csptr(new mock_attenuation()));
    ocean_model::csptr ocean(new ocean_model(nullptr, nullptr, profile_model::csptr(prof)));
    const size_t N = 1, M = 2;
    wposition tgt(1, 2);
    mat tsin(1, 2);
    for (size_t j = 0; j < 2; ++j) {
        tgt.rho(0, j, vp_real("tr", 6.3e6, 6.4e6)); tgt.theta(0, j, vp_real("tt", 0.1, 3.0)); tgt.phi(0, j, vp_real("tp", -4, 4));
        tsin(0, j) = vp_real("ts", 0.01, 1);
    }
    bool targets = vp_choice("targets", 0, 1);
    wave_front w(ocean, freqs(), N, M, targets ? &tgt : nullptr, targets ? &tsin : nullptr);
    for (size_t j = 0; j < M; ++j) {
        setw(w.position, 0, j, vp_real("r", 6.3e6, 6.4e6), vp_real("t", 0.01, 3.13), vp_real("p", -4, 4));
        setw(w.ndirection, 0, j, vp_real("nr", -1e-3, 1e-3), vp_real("nt", -1e-3, 1e-3), vp_real("np", -1e-3, 1e-3));
        w.distance(0, j) = vp_real("d", 0, 1000);
        w.phase(0, j)(0) = 1.0; w.phase(0, j)(1) = 2.0;
    }
    w.update();
    for (size_t j = 0; j < M; ++j) {
        double r = w.position.rho(0, j), t = w.position.theta(0, j), p = w.position.phi(0, j);
        double nr = w.ndirection.rho(0, j), nt = w.ndirection.theta(0, j), np = w.ndirection.phi(0, j);
        double c = vp_uf("c", r, t, 1400, 1600), gr = vp_uf("gr", r, t, -2, 2), gt = vp_uf("gt", r, t, -1e5, 1e5) / r;
        double s = sin(t), k = cos(t), gp = vp_uf("gp", r, t, -1e5, 1e5) / (r * s);
        vp_eq(w.sound_speed(0, j), c, "sound speed at the ray");
        vp_eq(w.sound_gradient.rho(0, j), gr, "gradient at the ray"); vp_eq(w.sound_gradient.theta(0, j), gt * r, "gradient at the ray");
        // velocity along the ray in local components is c*c times the direction
        double vr = w.pos_gradient.rho(0, j), vt = r * w.pos_gradient.theta(0, j), vp = r * s * w.pos_gradient.phi(0, j);
        vp_eq_scale(vr, c * c * nr, 1, "velocity of the ray, radial"); vp_eq_scale(vt, c * c * nt, 1, "velocity of the ray, south"); vp_eq_scale(vp, c * c * np, 1, "velocity of the ray, east");
        // the direction turns with the gradient: d(n)/dt = -grad(c)/c, with the terms of the moving frame
        double dr = w.ndir_gradient.rho(0, j), dt = w.ndir_gradient.theta(0, j), dp = w.ndir_gradient.phi(0, j);
        double th = c * c * nt / r, ph = c * c * np / (r * s);
        vp_eq_scale(dr - nt * th - np * s * ph, -gr / c, 1e-4, "turning of the ray, radial");
        vp_eq_scale(dt + nr * th - np * k * ph, -gt / c, 1e-4, "turning of the ray, south");
        vp_eq_scale(dp + (nr * s + nt * k) * ph, -gp / c, 1e-4, "turning of the ray, east");
        // so the length of the direction stays 1/c
        vp_eq_scale(nr * dr + nt * dt + np * dp, -(nr * gr + nt * gt + np * gp) / c, 1e-6, "length of the direction follows the slowness");
        for (size_t f = 0; f < 2; ++f) {
            vp_eq(w.attenuation(0, j)(f), vp_uf("att", w.distance(0, j), 1000.0 + 500.0 * f, 0, 10), "attenuation of the step");
            vp_eq(w.phase(0, j)(f), 0, "no phase from the water");
        }
        if (targets) for (size_t n = 0; n < 2; ++n) {
            double R = tgt.rho(0, n), a = t - tgt.theta(0, n), b = p - tgt.phi(0, n);
            double d2 = r * r + R * R - 2 * r * R * (1 - 2 * (0.25 * a * a + tsin(0, n) * s * 0.25 * b * b));
            vp_eq_scale(w.distance2(0, n)(0, j), d2 < 0 ? -d2 : d2, 4e13, "distance to the targets");
        }
    }
}
static void launch() {
    mock_profile* prof = new mock_profile();
    ocean_model::csptr ocean(new ocean_model(nullptr, nullptr, profile_model::csptr(prof)));
    const size_t N = 2, M = 2;
    double d0 = vp_real("de", -90, 0), dd = vp_real("dde", 1, 45), a0 = vp_real("az", -180, 180), da = vp_real("daz", 1, 180);
    seq_vector::csptr de(new seq_linear(d0, dd, N)), az(new seq_linear(a0, da, M));
    wave_front w(ocean, freqs(), N, M);
    wposition1 pos;
    pos.rho(vp_real("r", 6.3e6, 6.4e6)); pos.theta(vp_real("t", 0, PI)); pos.phi(vp_real("p", -4, 4));
    w.init_wave(pos, de, az);
    double c = vp_uf("c", pos.rho(), pos.theta(), 1400, 1600);
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) {
        double e = (*de)(i) * D2R, a = (*az)(j) * D2R;
        vp_eq(w.position.rho(i, j), pos.rho(), "starts at the source"); vp_eq(w.position.theta(i, j), pos.theta(), "starts at the source"); vp_eq(w.position.phi(i, j), pos.phi(), "starts at the source");
        double nr = c * w.ndirection.rho(i, j), nt = c * w.ndirection.theta(i, j), np = c * w.ndirection.phi(i, j);
        vp_eq(nr, sin(e), "vertical launch component"); vp_eq(-nt, cos(e) * cos(a), "north launch component"); vp_eq(np, cos(e) * sin(a), "east launch component");
        vp_eq(nr * nr + nt * nt + np * np, 1, "launch direction has the length of the slowness");
    }
}
void h_main() {
    switch (vp_param("kind", 0)) {
        case 0: steps(); break;
        case 1: derivatives(); break;
        case 2: launch(); break;
    }
}
