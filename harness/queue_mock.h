// A wave queue in an arbitrary state.
#include <usml/waveq3d/wave_queue.h>
#include <usml/waveq3d/reflection_model.h>
#include <usml/waveq3d/spreading_model.h>
#include "wave_mock.h"
#include <boost/numeric/ublas/vector.hpp>
using namespace boost::numeric::ublas;
struct env {
    mock_profile* profile; mock_boundary *surface, *bottom; ocean_model::csptr ocean; seq_vector::csptr f;
    env() {
        profile = new mock_profile(); profile->attenuation(attenuation_model::csptr(new mock_attenuation()));
        surface = new mock_boundary(); bottom = new mock_boundary();
        ocean = ocean_model::csptr(new ocean_model(boundary_model::csptr(surface), boundary_model::csptr(bottom), profile_model::csptr(profile)));
        f = freqs();
    }
};
// a queue in an arbitrary state: the members are set up without running the constructor
static wave_queue* queue(const env& e, const seq_vector::csptr& de, const seq_vector::csptr& az, double dt, const wposition* tgt = nullptr, const matrix<double>* ts = nullptr) {
    void* m = operator new(sizeof(wave_queue));
    memset(m, 0, sizeof(wave_queue));
    wave_queue* q = (wave_queue*)m;
    new ((eigenray_notifier*)q) eigenray_notifier(); new ((eigenverb_notifier*)q) eigenverb_notifier();
    new ((reflection_notifier*)q) reflection_notifier(); new ((wave_thresholds*)q) wave_thresholds();
    new (&q->_ocean) ocean_model::csptr(e.ocean); new (&q->_frequencies) seq_vector::csptr(e.f);
    new (&q->_source_de) seq_vector::csptr(de); new (&q->_source_az) seq_vector::csptr(az);
    new (&q->_source_pos) wposition1();
    *(size_t*)&q->_max_de = de->size() - 1; *(size_t*)&q->_max_az = az->size() - 1;
    q->_time_step = dt; q->_target_pos = tgt;
    q->_past = new wave_front(e.ocean, e.f, de->size(), az->size(), tgt, ts);
    q->_prev = new wave_front(e.ocean, e.f, de->size(), az->size(), tgt, ts);
    q->_curr = new wave_front(e.ocean, e.f, de->size(), az->size(), tgt, ts);
    q->_next = new wave_front(e.ocean, e.f, de->size(), az->size(), tgt, ts);
    return q;
}
static seq_vector::csptr fan(double first, double inc, size_t n) { return seq_vector::csptr(new seq_linear(first, inc, n)); }
static const double R0 = 6371000.0;
