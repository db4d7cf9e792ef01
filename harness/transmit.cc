// Transmit waveforms and shading windows against their formulas.
#include <usml/transmit/transmit_cw.h>
#include <usml/transmit/transmit_lfm.h>
#include <usml/transmit/transmit_model.h>
#include <usml/transmit/window.h>
using namespace usml::types;
using namespace usml::transmit;
typedef boost::numeric::ublas::vector<double> vec;
static const double PI = 3.14159265358979323846;

static double shade(int t, size_t n, size_t N, double beta) {
    double M = (double)N - 1.0;
    switch (t) {
    case 1: return 0.5 * (1 - cos(2 * PI / M * n));
    case 2: return 0.54 - 0.46 * cos(2 * PI / M * n);
    case 3: { double y = ((double)n - 0.5 * M) / (0.5 * M);
        return std::cyl_bessel_i(0.0, beta * sqrt(1.0 - y * y)) / std::cyl_bessel_i(0.0, beta); }
    }
    return 1.0;
}
static void window_check() {
    size_t N = (size_t)vp_choice("N", 2, 8);
    int t = (int)vp_choice("type", 0, 3);
    double beta = vp_real("beta", 0.1, 8.0);
    vec w = window::any((window::type)t, N, beta);
    vec d = t == 0 ? window::boxcar(N) : t == 1 ? window::hann(N) : t == 2 ? window::hamming(N) : window::kaiser(N, beta);
    vp_assert(w.size() == N && d.size() == N, "window has the requested length");
    for (size_t n = 0; n < N; ++n) {
        vp_eq(w(n), shade(t, n, N, beta), "window formula");
        vp_eq(d(n), w(n), "window selected by its type");
        vp_eq(w(N - 1 - n), w(n), "window is symmetric");
        if (t < 3) { vp_le(w(n), 1.0, "window at most one"); vp_le(0.0, w(n), "window not negative"); }
    }
}
static void pulse_check() {
    size_t N = (size_t)vp_choice("N", 2, 4);
    int t = (int)vp_choice("type", 0, 3);
    bool lfm = vp_choice("lfm", 0, 1);
    double fs = vp_real("fsample", 100, 10000), off = vp_real("roundoff", -0.49, 0.49);
    double dur = ((double)N + off) / fs;
    double fc = vp_real("fcenter", 100, 10000), fb = vp_real("fband", 0, 10000), bw = lfm ? vp_real("bandwidth", 1, 1000) : 0.0;
    double delay = vp_real("delay", 0, 10), sl = vp_real("level", 0, 200), beta = vp_real("beta", 0.1, 8.0);
    double az = vp_real("az", -180, 180), de = vp_real("de", -90, 90), ph = vp_real("phase", -3, 3);
    int mode = (int)vp_choice("mode", 0, 1);
    std::unique_ptr<transmit_model> m;
    if (lfm) m.reset(new transmit_lfm("p", dur, bw, fc, delay, sl, (window::type)t, beta, az, de, mode));
    else m.reset(new transmit_cw("p", dur, fc, delay, sl, (window::type)t, beta, az, de, mode));
    vp_eq(m->duration, dur, "pulse duration"); vp_eq(m->fcenter, fc, "pulse frequency");
    vp_eq(m->bandwidth, bw, "pulse bandwidth"); vp_eq(m->delay, delay, "pulse delay");
    vp_eq(m->source_level, sl, "pulse level"); vp_eq(m->window_param, beta, "window parameter");
    vp_eq(m->orderedAZ, az, "pulse azimuth"); vp_eq(m->orderedDE, de, "pulse elevation");
    vp_assert(m->window_type == (window::type)t && m->transmit_mode == mode && m->type == "p", "pulse settings");
    double out = 0;
    cdvector s = m->asignal(fs, fb, ph, &out);
    vp_assert(s.size() == N, "duration times sampling rate samples");
    double T = (double)N / fs;
    for (size_t n = 0; n < N; ++n) {
        double tm = (double)n / fs;
        // frequency sweeps from fc-bw/2 to fc+bw/2 over the pulse
        double p = 2 * PI * ((fc - fb - 0.5 * bw) * tm + 0.5 * bw / T * tm * tm) + ph;
        double w = shade(t, n, N, beta);
        vp_eq(s(n).real(), w * sin(p), "sample of the pulse");
        vp_eq(s(n).imag(), w * cos(p), "quadrature sample of the pulse");
    }
    vp_eq(out, fmod(2 * PI * (fc - fb) * T + ph, 2 * PI), "phase at which the next pulse starts");
    cdvector s2 = m->asignal(fs, fb, ph, nullptr);
    vp_assert(s2.size() == N, "duration times sampling rate samples");
    vp_eq(s2(1).real(), s(1).real(), "repeatable");
}
extern "C" void h_main() {
    if (vp_param("kind", 0) == 0) window_check(); else pulse_check();
}
