// Reverberation time series.
#include <usml/rvbts/rvbts_collection.h>
#include <usml/beampatterns/bp_model.h>
#include <usml/transmit/transmit_model.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>
using namespace usml::types; using namespace usml::rvbts; using namespace usml::sensors; using namespace usml::transmit; using namespace usml::biverbs; using namespace usml::beampatterns;
typedef boost::numeric::ublas::vector<double> vec;
struct pulse : transmit_model {
    pulse(double dur, double fc, double delay, double sl, int mode) : transmit_model("pulse", dur, 1.0, fc, delay, sl, window::type::BOXCAR, 0.0, 0.0, 0.0, mode) {}
    cdvector asignal(double, double, double, double*) override { return cdvector(); }
};
struct beam : bp_model {
    int calls; double arr[3], steer[3], f; size_t nf; double level;
    static beam* last;
    beam() : calls(0), f(0), nf(0), level(1) {}
    void beam_level(const bvector& a, const seq_vector::csptr& fr, vec* lev, const bvector& s, double) const override {
        beam* me = const_cast<beam*>(this); me->calls++; me->nf = fr->size(); me->f = (*fr)(0); (*lev)[0] = level;
        me->arr[0] = a.front(); me->arr[1] = a.right(); me->arr[2] = a.up(); me->steer[0] = s.front(); me->steer[1] = s.right(); me->steer[2] = s.up();
    }
};
static orientation turn(const char* n, int on) { if (!on) return orientation(30, 10, -20); return orientation(vp_real(n, -170, 170), 10, 20); }
static void world(double de, double az, const orientation& o, double out[3]) {
    bvector v(to_degrees(de), to_degrees(az)); double w[3] = {v.front(), v.right(), v.up()};
    for (int i = 0; i < 3; ++i) { out[i] = 0; for (int j = 0; j < 3; ++j) out[i] += o.rotation()(j, i) * w[j]; }
}
static void series() {
    const size_t nf = (size_t)vp_param("nf", 1), nc = 2; int mode = (int)vp_param("mode", 3), weak = (int)vp_param("weak", 0), N = (int)vp_param("n", 4);
    double step = 0.5; seq_vector::csptr times(new seq_linear(1.0, step, (size_t)N));
    orientation so = turn("source heading", 0), ro = turn("receiver heading", 0);
    sensor_model::sptr src(new sensor_model(1, "s")), rcv(new sensor_model(2, "r"));
    beam *sb = new beam(), *other = new beam(), *rb[2] = {new beam(), new beam()}; bp_model::csptr h0(sb), h1(other), h2(rb[0]), h3(rb[1]);
    int keys[2] = {(int)vp_param("key", 2), 7}; bvector steer(0.6, 0.8, 0.0), rsteer[2] = {bvector(0, 1, 0), bvector(0, 0, 1)};
    src->src_beam(mode, h0); src->src_beam(mode + 1, h1); for (int k = 0; k < 2; ++k) rcv->rcv_beam(keys[k], k ? h3 : h2, rsteer[k]);
    rvbts_collection c(src, wposition1(1, 2, -3), so, 4.0, rcv, wposition1(5, 6, -7), ro, 8.0, times);
    vp_assert(c.source() == src && c.receiver() == rcv && c.travel_times() == times && c.source_speed() == 4.0 && c.receiver_speed() == 8.0, "state of the pair");
    vp_assert(c.time_series().size1() == nc && c.time_series().size2() == (size_t)N, "one row for each channel, one column for each time");
    for (size_t i = 0; i < nc; ++i) for (int t = 0; t < N; ++t) vp_assert(c.time_series()(i, t) == 0.0, "silent to begin with");
    const int NV = (int)vp_param("verbs", 1); double ref[2][8] = {{0}}, all[2][8] = {{0}}, edge[8] = {0};
    for (int v = 0; v < NV; ++v) {
        biverb_model* b = new biverb_model(); biverb_model::csptr hb(b); double f[3] = {100.0, 200.0, 400.0};
        b->frequencies = seq_vector::csptr(new seq_data(f, nf)); b->power.resize(nf); for (size_t i = 0; i < nf; ++i) b->power(i) = vp_real("power", 1e-3, 1);
        b->source_de = vp_real("source de", -1.5, 1.5); b->source_az = vp_real("source az", -3, 3); b->receiver_de = vp_real("receiver de", -1.5, 1.5); b->receiver_az = vp_real("receiver az", -3, 3);
        double pd = vp_param("pulse", 100) / 1000.0, bd = vp_param("patch", 50) / 1000.0, T; b->duration = bd; T = pd + bd; b->travel_time = vp_real("time", -2, 6);
        double fc = 150, sl = vp_real("source level", 1, 1000), del = vp_real("delay", 0, 2); if (nf > 1) { int k = (int)vp_choice("band", 0, (long)nf - 2); fc = vp_real("frequency", f[k], f[k + 1]); }
        transmit_model::csptr tx(new pulse(pd, fc, del, sl, mode)); sb->level = weak == 1 ? 0 : vp_real("source beam", 0.01, 1); for (int k = 0; k < 2; ++k) rb[k]->level = weak == 2 + k ? 0 : vp_real("receiver beam", 0.01, 1);
        double p = b->power(0); if (nf > 1) { int k = nf == 3 && fc > 200 ? 1 : 0; double u = (fc - f[k]) / (f[k + 1] - f[k]); p = (1 - u) * b->power(k) + u * b->power(k + 1); }
        double peak = b->travel_time + del + T; double at[8]; int in[8];
        for (int t = 0; t < N; ++t) { at[t] = 1.0 + step * t; double d = at[t] - peak, e = d < 0 ? -d : d; vp_assume(e < 4.999 * T || e > 5.001 * T); in[t] = vp_split(e < 5 * T) ? 1 : 0; if (!in[t]) edge[t] = 1; }
        c.add_biverb(hb, tx, steer);
        for (int k = 0; k < 2; ++k) for (int t = 0; t < N; ++t) if (weak != 1 && weak != 2 + k) { double d = (at[t] - peak) / T; double g = p * pd * sl * sb->level * rb[k]->level * exp(-0.5 * d * d) / (T * sqrt(2 * 3.14159265358979323846)); all[k][t] += g; if (in[t]) ref[k][t] += g; }
        double s[3], r[3]; world(b->source_de, b->source_az, so, s); world(b->receiver_de, b->receiver_az, ro, r);
        vp_assert(sb->calls == v + 1 && other->calls == 0, "the beam of the transmit mode"); vp_assert(sb->nf == 1, "one frequency"); vp_eq(sb->f, fc, "beam level at the transmit frequency");
        for (int i = 0; i < 3; ++i) { vp_eq(sb->arr[i], s[i], "launch direction relative to the source array"); vp_eq(sb->steer[i], i == 0 ? 0.6 : i == 1 ? 0.8 : 0.0, "steering of the pulse"); }
        if (weak != 1) for (int k = 0; k < 2; ++k) { vp_assert(rb[k]->calls == v + 1, "every receiver channel"); vp_eq(rb[k]->f, fc, "beam level at the transmit frequency"); for (int i = 0; i < 3; ++i) { vp_eq(rb[k]->arr[i], r[i], "arrival direction relative to the receiver array"); vp_eq(rb[k]->steer[i], i == 1 + k ? 1.0 : 0.0, "steering of the channel"); } }
    }
    for (int k = 0; k < 2; ++k) for (int t = 0; t < N; ++t) { double x = c.time_series()(k, t);
        if (!edge[t]) vp_eq(x, ref[k][t], "sum of the Gaussians of the biverbs"); else { vp_assert(x == all[k][t] || vp_split(x >= ref[k][t] * (1 - 1e-9)), "no less than the Gaussians within five durations"); vp_assert(x == all[k][t] || x <= all[k][t] * (1 + 1e-9), "no more than the sum of the Gaussians"); } }
    vp_assert(vp_locks_held() == 0, "no lock is held");
}
// ---- the background task: every biverb of every interface and every pulse, steered relative to the host
#include <usml/rvbts/rvbts_generator.h>
#include <usml/sensors/sensor_pair.h>
#include <usml/platforms/platform_model.h>
struct ordered : pulse { ordered(double az, double de, double fc, int mode) : pulse(0.1, fc, 0.0, 2.0, mode) { const_cast<double&>(orderedAZ) = az; const_cast<double&>(orderedDE) = de; } };
static void task() {
    const bool hosted = vp_param("hosted", 1) != 0; const int early = (int)vp_param("abort", 0), NP = 2; sensor_model::sptr src(new sensor_model(1, "s")), rcv(new sensor_model(2, "r")); platform_model::sptr ship(new platform_model(3, "ship"));
    beam *sb[2] = {new beam(), new beam()}, *rb = new beam(); bp_model::csptr h0(sb[0]), h1(sb[1]), h2(rb); src->src_beam(0, h0); src->src_beam(1, h1); bvector rs(0, 0, 1); rcv->rcv_beam(5, h2, rs); rcv->time_minimum(1.0); rcv->time_maximum(2.5);
    orientation so(35, 10, -20), ho(vp_real("heading", -170, 170), 10, 20); src->update((time_t)0, wposition1(1, 2, -3), so, 4.0); rcv->update((time_t)0, wposition1(5, 6, -7), orientation(), 8.0); if (hosted) { ship->update((time_t)0, wposition1(1, 2, 0), ho, 4.0); src->_host = ship.get(); }
    double az[NP], de[NP]; transmit_list sched; for (int k = 0; k < NP; ++k) { az[k] = k ? -60 : vp_real("azimuth", -170, 170); de[k] = k ? 30 : vp_real("elevation", -80, 80); sched.push_back(transmit_model::csptr(new ordered(az[k], de[k], 100.0, k))); } src->_transmit_schedule = sched;
    biverb_collection* bc = new biverb_collection(0); biverb_collection::csptr hb(bc); std::list<biverb_model::csptr> verbs; double f[1] = {100.0}; seq_vector::csptr freq(new seq_data(f, 1));
    for (int v = 0; v < 3; ++v) { biverb_model* b = new biverb_model(); b->frequencies = freq; b->power.resize(1); b->power(0) = 0.25 * (v + 1); b->source_de = 0.1 * v; b->source_az = 0.2; b->receiver_de = 0.3; b->receiver_az = -0.1 * v; b->duration = 0.2; b->travel_time = 1.25 + 0.25 * v; biverb_model::csptr h(b); bc->_collection[v == 2 ? 1 : 0].insert(biverb_collection::map::value_type(b->travel_time, h)); verbs.push_back(h); }
    sensor_pair::sptr pair(new sensor_pair(src, rcv)); rvbts_generator g(pair, src, rcv, 0.5, hb); if (early) g.abort(); g.run();
    if (early) { vp_assert(!g.done() && pair->rvbts() == nullptr && sb[0]->calls == 0, "aborted before it started"); return; }
    rvbts_collection::csptr c = pair->rvbts(); vp_assert(g.done() && c != nullptr, "the pair is told of the result"); vp_assert(c->source() == src && c->receiver() == rcv && c->source_speed() == 4.0 && c->receiver_speed() == 8.0, "state of the pair"); vp_eq(c->source_pos().latitude(), 1.0, "position of the source"); vp_eq(c->receiver_pos().latitude(), 5.0, "position of the receiver");
    seq_vector::csptr t = c->travel_times(); vp_assert(t->size() == 4 && (*t)[0] == 1.0 && (*t)[3] == 2.5, "times of the receiver"); vp_assert(sb[0]->calls == 3 && sb[1]->calls == 3 && rb->calls == 6, "every pulse for every biverb");
    for (int k = 0; k < NP; ++k) { bvector o(de[k], az[k]); double w[3], h[3] = {o.front(), o.right(), o.up()}, s[3]; for (int i = 0; i < 3; ++i) { w[i] = 0; for (int j = 0; j < 3; ++j) w[i] += hosted ? ho.rotation()(i, j) * h[j] : 0.0; } for (int i = 0; i < 3; ++i) { s[i] = 0; for (int j = 0; j < 3; ++j) s[i] += so.rotation()(j, i) * w[j]; vp_eq(sb[k]->steer[i], hosted ? s[i] : h[i], "steering of the pulse relative to the host"); } }
    rvbts_collection ref(src, wposition1(1, 2, -3), so, 4.0, rcv, wposition1(5, 6, -7), orientation(), 8.0, t); for (std::list<biverb_model::csptr>::iterator v = verbs.begin(); v != verbs.end(); ++v) for (transmit_list::iterator p = sched.begin(); p != sched.end(); ++p) ref.add_biverb(*v, *p, bvector(1, 0, 0));
    for (int n = 0; n < 4; ++n) vp_eq(c->time_series()(0, n), ref.time_series()(0, n), "the sum over biverbs and pulses"); vp_assert(vp_locks_held() == 0, "no lock is held");
}
void h_main() {
    wposition::compute_earth_radius(30.0);
    switch (vp_param("kind", 0)) { case 0: series(); break; case 1: task(); break; }
}
