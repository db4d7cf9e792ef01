// Locks of shared objects: every operation waits for the threads that exclude
// it, runs beside those that do not, and releases what it locked.
#include <usml/managed/managed_obj.h>
#include <usml/managed/manager_template.h>
#include <usml/platforms/platform_manager.h>
#include <usml/platforms/platform_model.h>
#include <usml/sensors/sensor_manager.h>
#include <usml/sensors/sensor_model.h>
#include <usml/sensors/sensor_pair.h>
#include <usml/threads/thread_controller.h>
#include <usml/threads/thread_pool.h>
#include <usml/beampatterns/bp_omni.h>
#include <usml/transmit/transmit_cw.h>
#include <usml/ocean/ocean_shared.h>
#include <usml/types/seq_linear.h>
#include <usml/biverbs/biverb_collection.h>
#include <usml/eigenverbs/eigenverb_collection.h>
#include <usml/eigenrays/eigenray_collection.h>
#include <usml/rvbts/rvbts_collection.h>
using namespace usml::sensors; using namespace usml::managed; using namespace usml::platforms; using namespace usml::types;
using namespace usml::beampatterns; using namespace usml::threads; using namespace usml::eigenrays; using namespace usml::eigenverbs;
using namespace usml::biverbs; using namespace usml::rvbts; using namespace usml::transmit; using namespace usml::ocean;
static platform_model::sptr host, child, other;
static sensor_model::sptr sens, rcv, extra; static bp_model::csptr omni; static sensor_pair::sptr pr; static sensor_manager* mgr;
static eigenray_collection::csptr rays; static eigenverb_collection::csptr verbs; static biverb_collection::csptr bv; static rvbts_collection::csptr rv; static seq_vector::csptr freq;
static int key; static double x; static transmit_list schedule; static volatile size_t out;
struct obj : managed_obj<int, obj> { obj(int k) : managed_obj(k, "object") {} };
struct ear : manager_listener<obj> { void notify_add(const obj*) const override {} void notify_remove(int) const override {} };
typedef manager_template<obj> objects_type; static objects_type* objects; static ear listener, listener2; static obj::sptr item;
static eigenverb_collection* ec; static biverb_collection* bc; static eigenverb_model::csptr verb; static vector<double>* scat; static ocean_model::csptr ocean;

enum { READ = 0, WRITE = 1 };
// what = -1: the number of operations; otherwise the lock and kind of one, and the operation itself when run
#define OP(lock, kind, body) if (what == k++) { *lk = &(lock); *wr = kind; if (run) { body; } return k; }
static int ops(int group, int what, bool run, read_write_lock** lk, int* wr) {
    int k = 0;
    if (group == 0) {       // platforms
        read_write_lock& m = host->_mutex; std::time_t t; wposition1 p; orientation o; double s;
        OP(m, READ, host->get_motion(&t, &p, &o, &s)) OP(m, WRITE, host->update(100, wposition1(1.0, 2.0, -3.0 - x), orientation(4.0, 5.0, 6.0), x))
        OP(m, WRITE, host->update(100)) OP(m, WRITE, host->add_child(other)) OP(m, WRITE, host->remove_child((uint64_t)(10 + key))) OP(m, READ, out = host->children().size())
        OP(m, WRITE, try { host->add_child(child); } catch (std::exception&) {})
        OP(platform_manager::_mutex, WRITE, platform_manager::instance()->add(other)) OP(platform_manager::_mutex, WRITE, platform_manager::reset())
    } else if (group == 1) {    // beams and pulses of sensors
        read_write_lock& m = sens->mutex();
        OP(m, WRITE, sens->src_beam(key, omni)) OP(m, READ, out = sens->src_beam(key) != nullptr) OP(m, READ, out = sens->src_keys().size()) OP(m, READ, out = sens->src_num_keys()) OP(m, READ, out = sens->is_source())
        OP(m, WRITE, sens->reset_src_beams()) OP(m, WRITE, sens->rcv_beam(key, omni)) OP(m, READ, out = sens->rcv_beam(key) != nullptr) OP(m, READ, sens->rcv_steering(0)) OP(m, WRITE, sens->rcv_steering(key, bvector(1.0, 0.0, 0.0)))
        OP(m, READ, out = sens->rcv_keys().size()) OP(m, READ, out = sens->rcv_num_keys()) OP(m, READ, out = sens->is_receiver()) OP(m, WRITE, sens->reset_rcv_beams())
        OP(m, READ, out = sens->transmit_schedule().size()) OP(m, WRITE, sens->transmit_schedule(schedule)) OP(m, WRITE, sens->update(100, wposition1(10.0, 20.0, -50.0 - x), orientation(), 7.0))
    } else if (group == 2) {    // the manager of sensors
        read_write_lock& m = sensor_manager::_mutex; read_write_lock& n = mgr->manager_template<sensor_pair>::_mutex;
        OP(m, READ, out = mgr->frequencies() != nullptr) OP(m, WRITE, mgr->frequencies(freq)) OP(m, WRITE, mgr->add_sensor(extra)) OP(m, WRITE, mgr->remove_sensor(sens))
        OP(m, READ, out = mgr->find_source((uint64_t)key).size()) OP(m, READ, out = mgr->find_receiver((uint64_t)key).size()) OP(m, WRITE, sensor_manager::reset())
        OP(n, READ, out = mgr->list().size()) OP(n, READ, out = mgr->find(std::string("1_1")) != nullptr)
        OP(m, WRITE, try { mgr->frequencies(nullptr); mgr->add_sensor(extra); } catch (std::exception&) {})
    } else if (group == 3) {    // pairs
        read_write_lock& m = pr->_mutex;
        OP(m, READ, out = pr->dirpaths() != nullptr) OP(m, READ, out = pr->src_eigenverbs() != nullptr) OP(m, READ, out = pr->rcv_eigenverbs() != nullptr) OP(m, READ, out = pr->biverbs() != nullptr) OP(m, READ, out = pr->rvbts() != nullptr)
        OP(m, WRITE, pr->update_wavefront_data(sens.get(), rays, verbs)) OP(m, WRITE, pr->update_wavefront_data(rcv.get(), rays, verbs)) OP(m, WRITE, pr->notify_update(&bv)) OP(m, WRITE, pr->notify_update(&rv))
    } else if (group == 4) {    // managers of other objects
        read_write_lock& m = objects->_mutex;
        OP(m, WRITE, objects->add_listener(&listener2)) OP(m, WRITE, objects->remove_listener(&listener)) OP(m, WRITE, objects->add(item)) OP(m, WRITE, out = objects->remove(key)) OP(m, READ, out = objects->find(key) != nullptr) OP(m, READ, out = objects->list().size())
        OP(m, WRITE, try { objects->add(obj::sptr(new obj(key))); } catch (std::exception&) {})
    } else {                    // collections and the ocean
        OP(ec->_mutex, WRITE, ec->add_eigenverb(verb, 1)) OP(ec->_mutex, READ, out = ec->eigenverbs(0).size()) OP(ec->_mutex, READ, out = ec->find_eigenverbs(verb, 0).size())
        OP(bc->_mutex, WRITE, bc->add_biverb(verb, verb, *scat, 0)) OP(bc->_mutex, READ, out = bc->biverbs(0).size())
        OP(ocean_shared::_mutex, READ, out = ocean_shared::current() != nullptr) OP(ocean_shared::_mutex, WRITE, ocean_shared::update(ocean)) OP(ocean_shared::_mutex, WRITE, ocean_shared::reset())
    }
    return k;
}
static int grp, which;
static void run(void*) { read_write_lock* l; int w; ops(grp, which, true, &l, &w); }
static sensor_model::sptr sensor(uint64_t id) { sensor_model::sptr s(new sensor_model(id, "sensor", 0, wposition1(10.0, 20.0, -50.0))); s->time_maximum(1.0); s->multistatic(3); s->src_beam(0, omni); s->rcv_beam(0, omni); return s; }
void h_main() {
    grp = (int)vp_param("group", 0); wposition::compute_earth_radius(30.0); thread_controller::reset(0); // tasks stay in the queue
    omni = bp_model::csptr(new bp_omni()); freq = seq_vector::csptr(new seq_linear(1000.0, 1000.0, (size_t)2));
    ocean = ocean_model::csptr(new ocean_model(nullptr, nullptr, nullptr)); ocean_shared::update(ocean);
    host = platform_model::sptr(new platform_model(10, "host", 0, wposition1(10.0, 20.0, -50.0), orientation(), 3.0)); child = platform_model::sptr(new platform_model(11, "child")); other = platform_model::sptr(new platform_model(12, "other")); host->add_child(child);
    mgr = sensor_manager::instance(); mgr->frequencies(freq); sens = sensor(1); rcv = sensor(2); extra = sensor(3); mgr->add_sensor(sens); mgr->add_sensor(rcv); pr = mgr->find("1_2");
    transmit_model::csptr pulse(new transmit_cw("cw", 0.5, 1000.0)); schedule.push_back(pulse); if (vp_choice("scheduled", 0, 1)) sens->_transmit_schedule = schedule;
    matrix<uint64_t> ids(1, 1); ids(0, 0) = 2; wposition at(1, 1); rays = eigenray_collection::csptr(new eigenray_collection(freq, wposition1(10.0, 20.0, -50.0), at, 1, ids, true));
    verbs = eigenverb_collection::csptr(new eigenverb_collection(0)); bv = biverb_collection::csptr(new biverb_collection(0));
    objects = new objects_type(); objects->add(obj::sptr(new obj(1))); objects->add_listener(&listener); item = obj::sptr(new obj(2));
    eigenverb_model* v = new eigenverb_model(); v->frequencies = freq; v->power.resize(2); v->power(0) = v->power(1) = 0.5; v->length = v->width = 100; v->direction = 0.1; v->grazing = 0.2; v->sound_speed = 1500; v->travel_time = 1; v->source_de = v->source_az = 0; v->de_index = v->az_index = 0; v->surface = v->bottom = v->caustic = v->upper = v->lower = 0; v->position = wposition1(10.0, 20.0, -50.0);
    verb = eigenverb_model::csptr(v); ec = new eigenverb_collection(0); ec->add_eigenverb(verb, 0); bc = new biverb_collection(0); scat = new vector<double>(2); (*scat)(0) = (*scat)(1) = 0.1;
    key = (int)vp_int("key", 0, 5); x = vp_real("x", 0.0, 100.0);
    read_write_lock* lk = 0; int wr = 0; const int n = ops(grp, -1, false, &lk, &wr);
    which = (int)vp_choice("operation", 0, n - 1); ops(grp, which, false, &lk, &wr); vp_assert(vp_free(lk) && vp_locks_held() == 0, "nothing is locked before");
    const int held = (int)vp_choice("held", 0, 2);      // by another thread: not at all, for reading, for writing
    if (held == 0) run(0);
    else {
        const bool wait = held == 2 || wr == WRITE; int r = vp_hold(lk, (held == 2) | (wait ? 2 : 0), run, 0); if (r == 0) { run(0); vp_unhold(lk); r = 2; }
        if (wait) vp_assert(r == 1, "waits for the threads that exclude it"); else vp_assert(r == 2, "readers run beside each other");
    }
    vp_assert(vp_free(lk) && vp_locks_held() == 0, "everything is released afterwards");
}
