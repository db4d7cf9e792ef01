// Sensors, their manager, and pairs of sensors.
#include <usml/managed/managed_obj.h>
#include <usml/managed/update_listener.h>
#include <usml/platforms/motion_thresholds.h>
#include <usml/platforms/platform_manager.h>
#include <usml/sensors/sensor_manager.h>
#include <usml/sensors/sensor_model.h>
#include <usml/sensors/sensor_pair.h>
#include <usml/threads/thread_controller.h>
#include <usml/threads/thread_pool.h>
#include <usml/beampatterns/bp_omni.h>
#include <usml/types/seq_linear.h>
using namespace usml::sensors; using namespace usml::managed; using namespace usml::platforms; using namespace usml::types; using namespace usml::beampatterns; using namespace usml::threads; using namespace usml::wavegen;
struct pl : update_listener<sensor_pair> { int n; pl() : n(0) {} void notify_update(const sensor_pair*) override { ++n; } };
static sensor_model::sptr sensor(uint64_t id, int type, uint64_t group, const bp_model::csptr& b) {
    sensor_model::sptr s(new sensor_model(id, "sensor", 0.0, wposition1(30.0, 40.0, -100.0))); s->time_maximum(1.0); s->multistatic(group); if (type & 1) s->src_beam(0, b); if (type & 2) s->rcv_beam(0, b); return s;
}
// ---- histories of adding and removing sensors
static void histories() {
    const int NS = (int)vp_param("sensors", 3), N = (int)vp_param("steps", 4), types = (int)vp_param("types", 333), near = (int)vp_param("near", 0), bad = (int)vp_param("bad", 0);
    const uint64_t id[3] = {1, 11, 111}; const int ty[3] = {types / 100 % 10, types / 10 % 10, types % 10}; uint64_t g[3]; sensor_model::sptr s[3]; bool in[3] = {false, false, false}; bp_model::csptr b(new bp_omni()); pl ear;
    for (int k = 0; k < NS; ++k) { g[k] = (uint64_t)vp_int("group", 0, 1000); s[k] = sensor(id[k], ty[k], g[k], b); if (near == k + 1) s[k]->min_range(100.0); }
    bool same[3][3]; for (int i = 0; i < NS; ++i) for (int j = 0; j < i; ++j) same[i][j] = same[j][i] = vp_split(g[i] == g[j]); bool none[3]; for (int k = 0; k < NS; ++k) none[k] = vp_split(g[k] == 0);
    sensor_manager* m = sensor_manager::instance(); if (bad) { bool threw = false; try { m->add_sensor(s[0], &ear); } catch (sensor_manager::freq_missing&) { threw = true; } vp_assert(threw && m->list().empty() && s[0].use_count() == 1, "frequencies must be set"); }
    seq_vector::csptr freq(new seq_linear(1000.0, 1000.0, 2)); m->frequencies(freq); vp_assert(m->frequencies() == freq && sensor_manager::instance() == m, "frequencies of the manager");
    if (bad) { s[0]->time_maximum(0.0); bool threw = false; try { m->add_sensor(s[0], &ear); } catch (sensor_manager::time_maximum_missing&) { threw = true; } vp_assert(threw && m->list().empty() && s[0].use_count() == 1 && m->find_sensor(id[0]) == nullptr, "a maximum time must be set"); s[0]->time_maximum(1.0); }
    for (int step = 0; step < N; ++step) {
        int k = (int)vp_choice("sensor", 0, NS - 1); bool dup = bad == 2 && vp_choice("again", 0, 1) == 1;
        if (dup && in[k]) { bool threw = false; try { m->add_sensor(s[k], &ear); } catch (std::exception&) { threw = true; } vp_assert(threw, "a sensor is added once"); }
        else if (dup) m->remove_sensor(s[k], &ear);
        else if (!in[k]) { m->add_sensor(s[k], &ear); in[k] = true; } else { m->remove_sensor(s[k], &ear); in[k] = false; }
        size_t n = 0; size_t refs[3] = {1, 1, 1}; pair_list all = m->list();
        for (int i = 0; i < NS; ++i) { pair_list fs = m->find_source(id[i]); size_t cs = 0;
            for (int j = 0; j < NS; ++j) {
                bool want = in[i] && in[j] && (ty[i] & 1) && (ty[j] & 2) && (i == j ? near != i + 1 : same[i][j] && !none[i]);
                sensor_pair::sptr p = m->find(sensor_pair::generate_hash_key(id[i], id[j])); vp_assert((p != nullptr) == want, "exactly the pairs that are required exist");
                if (want && p != nullptr) { ++n; ++cs; ++refs[i]; ++refs[j]; vp_assert(p->source() == s[i] && p->receiver() == s[j] && p->keyID() == p->hash_key(), "the source and the receiver of the pair"); int c = 0; for (pair_list::iterator it = fs.begin(); it != fs.end(); ++it) if (*it == p) ++c; for (pair_list::iterator it = all.begin(); it != all.end(); ++it) if (*it == p) ++c; vp_assert(c == 2, "pairs of a source and all pairs"); pair_list fr = m->find_receiver(id[j]); c = 0; for (pair_list::iterator it = fr.begin(); it != fr.end(); ++it) if (*it == p) ++c; vp_assert(c == 1, "pairs of a receiver"); vp_assert(p->_listeners.size() == 1, "listener of the pair"); vp_assert(p->complement(s[i]) == s[j] && p->complement(s[j]) == s[i], "complement"); }
            }
            vp_assert(fs.size() == cs, "pairs of a source"); if (in[i]) ++refs[i];
        }
        vp_assert(all.size() == n, "no other pairs"); all.clear();
        for (int k2 = 0; k2 < NS; ++k2) { vp_assert(m->find_sensor(id[k2]) == (in[k2] ? s[k2] : sensor_model::sptr()), "finds the sensors that were added"); vp_assert(s[k2].use_count() == (long)refs[k2], "removed sensors are not referenced any more"); size_t w = 0; for (int j = 0; j < NS; ++j) { bool a = in[k2] && in[j] && (ty[k2] & 1) && (ty[j] & 2) && (k2 == j ? near != k2 + 1 : same[k2][j] && !none[k2]), c = in[k2] && in[j] && (ty[j] & 1) && (ty[k2] & 2) && (k2 == j ? near != k2 + 1 : same[k2][j] && !none[k2]); w += k2 == j ? (a ? 1 : 0) : (a ? 1 : 0) + (c ? 1 : 0); } vp_assert(s[k2]->wavefront_notifier::_listeners.size() == w, "the pairs listen to their sensors"); }
        vp_assert(vp_locks_held() == 0, "no lock is held");
    }
}

// ---- the motion of a sensor starts a new computation when it exceeds a threshold
#include <usml/wavegen/wavefront_generator.h>
static thread_pool* idle() { thread_controller::reset(0); return thread_controller::instance(); } // tasks stay in the queue
template <class T> static std::shared_ptr<T> last(thread_pool* pool) { return std::dynamic_pointer_cast<T>(pool->_task_queue.back()); }
static void thresholds() {
    const int which = (int)vp_param("which", 0); const double thr[6] = {0.01, 0.01, 5.0, 5.0, 5.0, 5.0}; thread_pool* pool = idle();
    double base[6] = {10.0, 179.99, -200.0, vp_param("yaw", 179.0), 1.0, -179.0}, now[6], at[6], ang[3], was[3] = {0, 0, 0};
    sensor_model::sptr s(new sensor_model(5, "sensor")); s->compute_reverb(vp_param("reverb", 1) != 0); s->time_maximum(vp_param("stop", 0) ? 0.0 : 2.0); if (vp_param("target", 0)) { platform_model::sptr t(new platform_model(9, "target", 0.0, wposition1(10.1, 179.9, -20.0))); t->is_acoustic_target(true); platform_manager::instance()->add(t); }
    seq_vector::csptr freq(new seq_linear(1000.0, 1000.0, 2)); sensor_manager::instance()->frequencies(freq); const bool able = !vp_param("stop", 0) && (vp_param("reverb", 1) || vp_param("target", 0));
    size_t n = 0; bool needs = true, moved = false; std::shared_ptr<wavefront_generator> task;
    for (int i = 0; i < 6; ++i) at[i] = now[i] = base[i];
    for (int step = 0; step < 3; ++step) {
        double d[6] = {0, 0, 0, 0, 0, 0}; int turn[6] = {0, 0, 0, 0, 0, 0}; platform_model::update_type_enum type = platform_model::TEST_THRESHOLD; moved = false;
        if (step == 0 && vp_param("type", 0)) type = platform_model::NO_UPDATE;
        if (step) { type = (platform_model::update_type_enum)vp_choice("update type", 0, vp_param("type", 0) ? 2 : 0); if (which < 6) { double c = vp_real("change", -3.0 * thr[which], 3.0 * thr[which]); if (which < 3) vp_assume(fabs(fabs(c) - thr[which]) > 1e-5); if (which == 1 || which == 3 || which == 5) turn[which] = (int)vp_choice("turn", -1, 1); if (which < 3) moved = vp_split(fabs(c) >= thr[which]); d[which] = c; now[which] = at[which] + c + 360.0 * turn[which]; }
            else for (int i = 0; i < 6; ++i) { double c = vp_real("change", -thr[i], thr[i]) * 0.99; now[i] = at[i] + c; } }
        orientation o(now[3], now[4], now[5]), q(o); ang[0] = q.yaw(); ang[1] = q.pitch(); ang[2] = q.roll();
        if (step) for (int i = 0; i < 3; ++i) { double c = fabs(ang[i] - was[i]); if (i != 1 && vp_split(c > 180.0)) c = 360.0 - c; vp_assume(fabs(c - 5.0) > 1e-5); if (vp_split(c >= 5.0)) moved = true; } if (step && which == 6) vp_assume(!moved);
        s->update((time_t)(100 + step), wposition1(now[0], now[1], now[2]), o, 1.0, type);
        bool want = able && (type == platform_model::FORCE_UPDATE || (type == platform_model::TEST_THRESHOLD && (needs || moved)));
        if (want) { std::shared_ptr<wavefront_generator> old = task; ++n; vp_assert(pool->_task_queue.size() == n, "motion above a threshold starts a new computation"); if (pool->_task_queue.size() == n) { task = last<wavefront_generator>(pool); vp_assert(task != nullptr && task != old && !task->_abort, "the new computation"); vp_assert(old == nullptr || old->_abort, "the previous computation is aborted"); vp_assert(s->wavefront_task() == task, "computation of this sensor"); }
            needs = false; for (int i = 0; i < 6; ++i) at[i] = now[i]; for (int i = 0; i < 6; ++i) if (turn[i]) at[i] -= 360.0 * turn[i]; for (int i = 0; i < 3; ++i) was[i] = ang[i];
            if (task != nullptr) { vp_eq(task->_source_position.latitude(), now[0], "position of the computation"); vp_eq(task->_source_position.longitude(), now[1], "position of the computation"); vp_eq(task->_source_position.altitude(), now[2], "position of the computation"); } }
        else { vp_assert(pool->_task_queue.size() == n && (task == nullptr || !task->_abort), "smaller motion does not start a computation"); }
        vp_eq(s->position().latitude(), now[0], "position of the sensor"); vp_eq(s->position().altitude(), now[2], "position of the sensor"); vp_assert(vp_locks_held() == 0, "no lock is held");
    }
}
// ---- the targets of a sensor
static void targets() {
    thread_pool* pool = idle(); const int N = 3; platform_model::sptr p[N]; bool is[N]; double z[N]; wposition1 at(20.0, -60.0, -100.0);
    for (int i = 0; i < N; ++i) { is[i] = vp_choice("acoustic target", 0, 1) == 1; z[i] = vp_real("altitude", -3000.0, -200.0); p[i].reset(new platform_model((uint64_t)(20 + i), "target", 0.0, wposition1(20.0 + 0.1 * i, -60.0, z[i]))); p[i]->is_acoustic_target(is[i]); platform_manager::instance()->add(p[i]); }
    sensor_model::sptr s(new sensor_model(5, "sensor")); bool self = vp_param("self", 0) != 0; s->is_acoustic_target(self); s->compute_reverb(vp_param("reverb", 0) != 0); s->time_maximum(7.0); s->time_step(0.25); s->max_bottom(3); s->max_surface(4); s->intensity_threshold(-120.0); seq_vector::csptr de(new seq_linear(-10.0, 5.0, 10.0)), az(new seq_linear(0.0, 30.0, 90.0)); s->de_fan(de); s->az_fan(az); platform_manager::instance()->add(s);
    double lo = vp_param("ranged", 1) ? vp_real("minimum range", 1.0, 15000.0) : 0.0, hi = vp_param("ranged", 1) == 1 ? vp_real("maximum range", 1.0, 40000.0) : 0.0; s->min_range(lo); s->max_range(hi); seq_vector::csptr freq(new seq_linear(1000.0, 1000.0, 2)); sensor_manager::instance()->frequencies(freq);
    bool want[N + 1]; size_t n = 0; for (int i = 0; i <= N; ++i) { double r2 = i < N ? p[i]->position().distance2(at) : 0.0; if (i < N && vp_param("ranged", 1)) { vp_assume(fabs(r2 - lo * lo) > 1.0); if (hi > 0) vp_assume(fabs(r2 - hi * hi) > 1.0); } want[i] = vp_split((i < N ? is[i] : self) && r2 >= lo * lo && (hi == 0 || r2 <= hi * hi)); if (want[i]) ++n; }
    s->update((time_t)1, at, orientation(), 0.0);
    if (n == 0 && !vp_param("reverb", 0)) { vp_assert(pool->_task_queue.empty(), "nothing to compute without targets"); return; }
    vp_assert(pool->_task_queue.size() == 1, "one computation"); std::shared_ptr<wavefront_generator> t = last<wavefront_generator>(pool); vp_assert(t != nullptr, "one computation"); vp_assert(t->_targetIDs.size1() == n && t->_targetIDs.size2() == 1 && t->_target_positions.size1() == n && t->_target_positions.size2() == 1, "targets within the limits of range");
    for (int i = 0; i <= N; ++i) { uint64_t id = i < N ? (uint64_t)(20 + i) : (uint64_t)5; int c = 0; for (size_t k = 0; k < t->_targetIDs.size1(); ++k) if (t->_targetIDs(k, 0) == id) { ++c; wposition1 q = i < N ? p[i]->position() : at; vp_eq(t->_target_positions.latitude(k, 0), q.latitude(), "position of the target"); vp_eq(t->_target_positions.longitude(k, 0), q.longitude(), "position of the target"); vp_eq(t->_target_positions.altitude(k, 0), q.altitude(), "position of the target"); } vp_assert(c == (want[i] ? 1 : 0), "exactly the acoustic targets within the limits of range"); }
    vp_assert(t->_source == s.get() && t->_frequencies == freq && t->_de_fan == de && t->_az_fan == az && t->_time_step == 0.25 && t->_time_maximum == 7.0 && t->_intensity_threshold == -120.0 && t->_max_bottom == 3 && t->_max_surface == 4, "parameters of the computation"); vp_assert(vp_locks_held() == 0, "no lock is held");
}

// ---- products of a pair of sensors
#include <usml/biverbs/biverb_generator.h>
#include <usml/rvbts/rvbts_generator.h>
#include <usml/transmit/transmit_cw.h>
#include <usml/ocean/ocean_shared.h>
#include <usml/ocean/boundary_flat.h>
#include <usml/ocean/profile_linear.h>
using namespace usml::eigenrays; using namespace usml::eigenverbs; using namespace usml::biverbs; using namespace usml::rvbts; using namespace usml::transmit; using namespace usml::ocean;
static void ocean_setup() { ocean_model::csptr o(new ocean_model(boundary_model::csptr(new boundary_flat(0.0)), boundary_model::csptr(new boundary_flat(-1000.0)), profile_model::csptr(new profile_linear(1500.0)))); ocean_shared::update(o); }
static eigenray_collection::csptr rays_of(const sensor_model* s, uint64_t other, const wposition1& at, const seq_vector::csptr& freq, double x, int n) {
    wposition t(2, 1); matrix<uint64_t> ids(2, 1); t.latitude(0, 0, 1.0); t.longitude(0, 0, 2.0); t.altitude(0, 0, -3.0); ids(0, 0) = 77; t.latitude(1, 0, at.latitude()); t.longitude(1, 0, at.longitude()); t.altitude(1, 0, at.altitude()); ids(1, 0) = other;
    eigenray_collection* c = new eigenray_collection(freq, s->position(), t, s->keyID(), ids, true);
    for (int k = 0; k <= n; ++k) { eigenray_model* r = new eigenray_model(); r->frequencies = freq; r->intensity = vector<double>(freq->size()); r->phase = vector<double>(freq->size()); for (size_t f = 0; f < freq->size(); ++f) { r->intensity(f) = 60.0 + k + 3.0 * f; r->phase(f) = 0.125 * k; } r->travel_time = 1.0 + 0.5 * k + x; r->source_de = 5.0 + k + x; r->source_az = 40.0 + 7 * k + x; r->target_de = -9.0 + k - x; r->target_az = 200.0 + 11 * k - x; r->surface = k; r->bottom = 2 * k; r->caustic = k + 1; r->upper = k + 2; r->lower = k + 3; c->add_eigenray(k == n ? 0 : 1, 0, eigenray_model::csptr(r)); }
    return eigenray_collection::csptr(c);
}
struct pears : update_listener<sensor_pair> { int n; const sensor_pair* last; pears() : n(0), last(0) {} void notify_update(const sensor_pair* p) override { ++n; last = p; vp_assert(vp_locks_held() == 0, "the pair is not locked while its listeners are notified"); } };
struct duo { sensor_model::sptr a, b; sensor_pair::sptr pair; seq_vector::csptr freq; bool mono; };
static void make(duo& d, pears* e) {
    d.mono = vp_param("mono", 0) != 0; bool reverb = vp_param("reverb", 1) != 0; bp_model::csptr omni(new bp_omni()); d.freq = seq_vector::csptr(new seq_linear(1000.0, 1000.0, 2)); sensor_manager* m = sensor_manager::instance(); m->frequencies(d.freq);
    d.a = sensor_model::sptr(new sensor_model(7, "src", 0, wposition1(10.0, 20.0, -50.0))); d.a->src_beam(0, omni); d.b = d.mono ? d.a : sensor_model::sptr(new sensor_model(8, "rcv", 0, wposition1(10.2, 20.3, -80.0))); d.b->rcv_beam(0, omni);
    sensor_model::sptr s[2] = {d.a, d.b}; for (int i = 0; i < (d.mono ? 1 : 2); ++i) { s[i]->time_maximum(2.0); s[i]->multistatic(4); s[i]->compute_reverb(reverb && !(i == 1 && vp_param("half", 0))); m->add_sensor(s[i], e); } d.pair = m->find(d.mono ? "7_7" : "7_8");
}
static void direct() {
    pears ear; duo d; make(d, &ear); const bool by_rcv = vp_param("rcv", 0) != 0; const int n = (int)vp_param("rays", 2); double x = vp_real("shift", 0.0, 4.0); sensor_model::sptr me = by_rcv ? d.b : d.a, other = d.mono ? d.a : by_rcv ? d.a : d.b; thread_pool* pool = idle();
    eigenray_collection::csptr in = rays_of(me.get(), other->keyID(), other->position(), d.freq, x, n); eigenverb_collection::csptr v(new eigenverb_collection(0)); vp_assert(d.pair != nullptr && d.pair->dirpaths() == nullptr, "no direct paths yet");
    me->notify_wavefront_listeners(me.get(), in, v); eigenray_collection::csptr c = d.pair->dirpaths(); vp_assert(c != nullptr, "direct paths"); vp_assert(c->size1() == 1 && c->size2() == 1 && c->frequencies() == d.freq && c->coherent(), "one target");
    vp_assert(c->sourceID() == d.a->keyID() && c->targetID(0, 0) == d.b->keyID(), "direct paths run from the source to the receiver"); wposition1 sp = c->_source_pos; vp_eq(sp.latitude(), d.a->position().latitude(), "position of the source"); vp_eq(sp.longitude(), d.a->position().longitude(), "position of the source"); vp_eq(sp.altitude(), d.a->position().altitude(), "position of the source"); wposition1 tp = c->position(0, 0); vp_eq(tp.latitude(), d.b->position().latitude(), "position of the receiver"); vp_eq(tp.longitude(), d.b->position().longitude(), "position of the receiver"); vp_eq(tp.altitude(), d.b->position().altitude(), "position of the receiver");
    eigenray_list l = c->eigenrays(0, 0), o = in->eigenrays(1, 0); vp_assert(l.size() == (size_t)n && o.size() == (size_t)n, "exactly the rays between the two sensors"); eigenray_list::const_iterator p = l.begin(), q = o.begin(); const bool flip = by_rcv && !d.mono;
    for (; p != l.end() && q != o.end(); ++p, ++q) { const eigenray_model &r = **p, &w = **q; vp_eq(r.travel_time, w.travel_time, "travel time of the ray"); vp_assert(r.surface == w.surface && r.bottom == w.bottom && r.caustic == w.caustic && r.upper == w.upper && r.lower == w.lower, "bounces of the ray"); for (size_t f = 0; f < d.freq->size(); ++f) { vp_eq(r.intensity(f), w.intensity(f), "loss of the ray"); vp_eq(r.phase(f), w.phase(f), "phase of the ray"); }
        if (!flip) { vp_eq(r.source_de, w.source_de, "launch angle of the ray"); vp_eq(r.source_az, w.source_az, "launch angle of the ray"); vp_eq(r.target_de, w.target_de, "arrival angle of the ray"); vp_eq(r.target_az, w.target_az, "arrival angle of the ray"); }
        else { double sa = w.target_az - 180.0, ta = w.source_az + 180.0; vp_eq(r.source_de, -w.target_de, "the reversed ray leaves against the direction of arrival"); vp_eq(r.source_az, sa, "the reversed ray leaves against the direction of arrival"); vp_eq(r.target_de, -w.source_de, "the reversed ray arrives against the direction of launch"); vp_eq(r.target_az, ta, "the reversed ray arrives against the direction of launch"); } }
    vp_eq(c->initial_time(0, 0), 1.0 + x, "the direct paths are totalled"); for (size_t f = 0; f < d.freq->size(); ++f) vp_assert(n > 0 ? c->total(0, 0).intensity.size() == d.freq->size() : true, "the direct paths are totalled"); vp_assert(vp_locks_held() == 0, "no lock is held");
}
struct job { int type; bool gone; std::shared_ptr<thread_task> t; };
static void products() {
    pears ear; duo d; make(d, &ear); ocean_setup(); thread_pool* pool = idle(); const int N = (int)vp_param("steps", 4); const bool reverb = vp_param("reverb", 1) && !vp_param("half", 0); std::list<job> todo; eigenverb_collection::csptr sv, rv; bool has_b = false, has_r = false; transmit_list none, some; some.push_back(transmit_model::csptr(new transmit_cw("cw", 0.5, 1000.0))); transmit_list cur; if (vp_param("pulse", 1)) { d.a->transmit_schedule(some); cur = some; } vp_assert(pool->_task_queue.empty() && ear.n == 0, "nothing to compute yet");
    bool gone = false; biverb_collection::csptr b0; rvbts_collection::csptr r0; eigenray_collection::csptr p0;
    for (int step = 0; step < N; ++step) {
        int op = (int)vp_choice("operation", 0, vp_param("remove", 0) ? 5 : 4), told = 0, add = -1; ear.n = 0; ear.last = 0; if (op == 1 && d.mono) vp_assume(false); bool nb = false, nr = false; const size_t before = pool->_task_queue.size();
        if (op < 2) { sensor_model::sptr me = op ? d.b : d.a, other = d.mono ? d.a : op ? d.a : d.b; eigenray_collection::csptr in = rays_of(me.get(), other->keyID(), other->position(), d.freq, 0.0, 1); eigenverb_collection::csptr v(new eigenverb_collection(0)); me->notify_wavefront_listeners(me.get(), in, v); vp_assert(d.pair->dirpaths() != nullptr && d.pair->dirpaths() != p0, "new direct paths"); p0 = d.pair->dirpaths(); if (!reverb) told = 1; else { if (op == 0 || d.mono) sv = v; if (op == 1 || d.mono) rv = v; if (sv && rv) add = 0; } }
        else if (op == 5) { vp_assume(!gone); gone = true; sensor_manager::instance()->remove_sensor(d.b, &ear); vp_assert(sensor_manager::instance()->list().empty(), "the pair is removed"); }
        else if (op == 2) { vp_assume(!todo.empty()); job j = todo.front(); todo.pop_front(); std::shared_ptr<thread_task> t = pool->_task_queue.front(); pool->_task_queue.pop(); vp_assert(t == j.t, "order of the tasks"); t->start(); j.t.reset(); if (!j.gone) { if (j.type == 0) { nb = true; if (cur.empty()) told = 1; else add = 1; } else { nr = true; told = 1; } } else vp_assert(!t->done(), "superseded tasks do nothing"); }
        else { const bool force = vp_choice("force", 0, 1) == 1; const transmit_list& s = op == 3 ? some : none; bool was = cur.empty(); d.a->transmit_schedule(s, force ? platform_model::FORCE_UPDATE : platform_model::NO_UPDATE); cur = s; vp_assert(d.a->transmit_schedule().size() == s.size(), "transmit schedule"); if ((was || force) && has_b && !gone) { if (cur.empty()) told = 1; else add = 1; } }
        if (gone) { add = -1; told = 0; }
        if (add >= 0) { for (std::list<job>::iterator it = todo.begin(); it != todo.end(); ++it) if (it->type == add) it->gone = true; vp_assert(pool->_task_queue.size() == todo.size() + 1, "a new computation is started"); job j; j.type = add; j.gone = false; j.t = pool->_task_queue.back(); std::shared_ptr<biverb_generator> b = std::dynamic_pointer_cast<biverb_generator>(j.t); std::shared_ptr<rvbts_generator> r = std::dynamic_pointer_cast<rvbts_generator>(j.t); vp_assert(add == 0 ? b != nullptr : r != nullptr, "kind of the computation"); if (b) vp_assert(b->_src_eigenverbs == sv && b->_rcv_eigenverbs == rv && b->_sensor_pair == d.pair, "eigenverbs of the source and of the receiver"); if (r) { vp_assert(r->_biverbs == d.pair->biverbs() && r->_source == d.a && r->_receiver == d.b && r->_transmit_schedule.size() == cur.size(), "biverbs of the pair"); seq_vector::csptr tt = r->_travel_times; vp_assert(fabs((*tt)[1] - (*tt)[0] - 0.25) < 1e-9 && (*tt)[0] == 0.0 && tt->size() == 9, "times of the reverberation"); } todo.push_back(j); }
        else vp_assert(pool->_task_queue.size() == todo.size(), "no computation is started");
        for (std::list<job>::iterator it = todo.begin(); it != todo.end(); ++it) vp_assert(it->t->_abort == it->gone, "superseded computations are aborted, and no others");
        if (nb) { has_b = true; vp_assert(d.pair->biverbs() != nullptr && d.pair->biverbs() != b0, "new biverbs"); } else vp_assert(d.pair->biverbs() == b0, "biverbs are kept"); if (nr) { has_r = true; vp_assert(d.pair->rvbts() != nullptr && d.pair->rvbts() != r0, "new reverberation"); } else vp_assert(d.pair->rvbts() == r0, "reverberation is kept"); b0 = d.pair->biverbs(); r0 = d.pair->rvbts();
        vp_assert(d.pair->src_eigenverbs() == sv && d.pair->rcv_eigenverbs() == rv, "eigenverbs of the pair"); vp_assert(ear.n == told && (!told || ear.last == d.pair.get()), "listeners are notified once when the computations are complete"); vp_assert(vp_locks_held() == 0, "no lock is held");
    }
}
void h_main() { wposition::compute_earth_radius(30.0); switch ((int)vp_param("kind", 0)) { case 0: histories(); break; case 1: thresholds(); break; case 2: targets(); break; case 3: direct(); break; case 4: products(); break; } }
